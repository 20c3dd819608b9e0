From 3eece62a5bc876fbab8e7d1220cd7d4d9c7ac0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:29 +0000
Subject: [PATCH 001/148] fix: '?' in the start time of remove_data matches one
 character only

---
 src/seismic/db/corr_hdf5.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/seismic/db/corr_hdf5.py b/src/seismic/db/corr_hdf5.py
index 724b43b..6b762dd 100644
--- a/src/seismic/db/corr_hdf5.py
+++ b/src/seismic/db/corr_hdf5.py
@@ -193,9 +193,7 @@ omitted." % path, category=UserWarning)
             except KeyError:
                 warnings.warn(f'requested dataset {path} not found')
             return
-        # Now, we need to differ between the fnmatch pattern and the actually
-        # accessed path
-        path = path.replace('?', '*')
+        # fnmatch pattern
         pattern = path.replace('/*', '*')
         for sst in self.get_available_starttimes(
                 network, station, tag, channel)[channel]:
-- 
2.43.0


From 88773e9749dc4c1bca7ab4ec15005f42bbfb01d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:29 +0000
Subject: [PATCH 002/148] fix: wildcard queries return exactly the matching
 correlations

Partial wildcards (e.g., HH*-HHZ) raised KeyErrors, '?' was treated like
'*', wildcards matched across the levels of the path (e.g., a start time
matched the end time of the previous window) and codes with wildcards were
reordered by the position of the wildcard character.
---
 src/seismic/db/corr_hdf5.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/seismic/db/corr_hdf5.py b/src/seismic/db/corr_hdf5.py
index 6b762dd..29d3e03 100644
--- a/src/seismic/db/corr_hdf5.py
+++ b/src/seismic/db/corr_hdf5.py
@@ -247,7 +247,11 @@ omitted." % path, category=UserWarning)
                 network.split('-'), station.split('-'), channel.split('-'))]
         sorted = sort.copy()
         sorted.sort()
-        if sorted != sort:
+        # Wildcards do not have an alphabetical order
+        names = network + station
+        if len(set(zip(network.split('-'), station.split('-')))) == 1:
+            names += channel
+        if sorted != sort and not re.search(r'[*?]', names):
             network, station, channel = ['-'.join([a, b]) for a, b in zip(
                 sorted[0].split('.'), sorted[1].split('.'))]
 
@@ -268,11 +272,18 @@ omitted." % path, category=UserWarning)
             header = read_hdf5_header(self[path])
             return CorrStream(CorrTrace(data, _header=header))
         # Now, we need to differ between the fnmatch pattern and the actually
-        # accessed path
-        path = path.replace('?', '*')
+        # accessed path, i.e., the last group without wildcards
         pattern = path.replace('/*', '*')
-        path = path.split('*')[0]
-        return all_traces_recursive(self[path], CorrStream(), pattern)
+        path = re.split(r'[*?]', path)[0].rpartition('/')[0] + '/'
+        cst = all_traces_recursive(self[path], CorrStream(), pattern)
+        # Wildcards in the pattern match across the levels of the path, so
+        # make sure that each code and time matches its own query
+        query = (network, station, channel, corr_start, corr_end)
+        return CorrStream([tr for tr in cst or [] if all(
+            fnmatch.fnmatchcase(code, q) for code, q in zip((
+                tr.stats.network, tr.stats.station, tr.stats.channel,
+                tr.stats.corr_start.format_fissures(),
+                tr.stats.corr_end.format_fissures()), query))])
 
     def get_available_starttimes(
         self, network: str, station: str, tag: str,
-- 
2.43.0


From 13629e05a979e6f28be16200a8b43bade42b3a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:29 +0000
Subject: [PATCH 003/148] fix: get_available_starttimes returns an empty dict
 if nothing is available

As it already did for channels without wildcards. find_existing_times failed
for tags or combinations without data.
---
 src/seismic/db/corr_hdf5.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/seismic/db/corr_hdf5.py b/src/seismic/db/corr_hdf5.py
index 29d3e03..a94c9a9 100644
--- a/src/seismic/db/corr_hdf5.py
+++ b/src/seismic/db/corr_hdf5.py
@@ -310,7 +310,7 @@ omitted." % path, category=UserWarning)
             corr_st='*', corr_et='*')
         out = {}
         if isinstance(channel, str):
-            if '*' not in channel:
+            if not re.search(r'[*?]', channel):
                 path = '/'.join(path.split('/')[:-2])
                 try:
                     out[channel] = list(self[path].keys())
@@ -319,8 +319,13 @@ omitted." % path, category=UserWarning)
                 return out
             channel = [channel]
         path = '/'.join(path.split('/')[:-3])
+        try:
+            available = list(self[path].keys())
+        except KeyError:
+            # Nothing available
+            return out
         for ch in channel:
-            for match in fnmatch.filter(self[path].keys(), ch):
+            for match in fnmatch.filter(available, ch):
                 out[match] = list(self['/'.join([path, match])].keys())
         return out
 
-- 
2.43.0


From 5742009779d7c7e381f282a1bbe70e521a1eddcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:45 +0000
Subject: [PATCH 004/148] fix: drop all masking steps from the compared
 correlation options

Removing while iterating kept every second of consecutive steps, so that a
database could not be reopened with the options it was written with.
---
 src/seismic/db/corr_hdf5.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/seismic/db/corr_hdf5.py b/src/seismic/db/corr_hdf5.py
index a94c9a9..481fbeb 100644
--- a/src/seismic/db/corr_hdf5.py
+++ b/src/seismic/db/corr_hdf5.py
@@ -537,8 +537,9 @@ def co_to_hdf5(co: dict) -> dict:
         coc['subdivision'].pop('recombine_subdivision', None)
         coc['subdivision'].pop('delete_subdivision', None)
     try:
-        [coc['preProcessing'].remove(step) for step in coc['preProcessing']
-            if 'stream_mask_at_utc' in step['function']]
+        coc['preProcessing'] = [
+            step for step in coc['preProcessing']
+            if 'stream_mask_at_utc' not in step['function']]
     except KeyError:
         pass
     return coc
-- 
2.43.0


From 2584b0601fc103d59fbe623f3dd01396bc4661d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:51 +0000
Subject: [PATCH 005/148] fix: sort station combinations by network, station,
 and channel separately

---
 src/seismic/correlate/correlate.py | 4 ++--
 src/seismic/correlate/stream.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index f58d133..b278c3c 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -1217,8 +1217,8 @@ def sort_comb_name_alphabetically(
     if not all([isinstance(arg, str) for arg in [
             network1, network2, station1, station2]]):
         raise TypeError('All arguments have to be strings.')
-    sort1 = network1 + station1 + channel1
-    sort2 = network2 + station2 + channel2
+    sort1 = '.'.join([network1, station1, channel1])
+    sort2 = '.'.join([network2, station2, channel2])
     sort = [sort1, sort2]
     sorted = sort.copy()
     sorted.sort()
diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index a90d595..9acc41e 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -1421,8 +1421,8 @@ def alphabetical_correlation(
     """
     # make sure the order is correct
     # Will do that always alphabetically sorted
-    sort1 = header1.network + header1.station + header1.channel
-    sort2 = header2.network + header2.station + header2.channel
+    sort1 = '.'.join([header1.network, header1.station, header1.channel])
+    sort2 = '.'.join([header2.network, header2.station, header2.channel])
     sort = [sort1, sort2]
     sorted = sort.copy()
     sorted.sort()
-- 
2.43.0


From e36dd824c2e9efa71905f2adbaa30994d5015c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 006/148] fix: combinations requested by name match whole
 codes, either order and with channels

---
 src/seismic/correlate/correlate.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index b278c3c..38a43b6 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -224,15 +224,17 @@ class Correlator(object):
         if self.rcombis is None or self.options['combination_method'] \
                 != 'betweenStations':
             return
+        # combinations can hold channel information as well
+        rcombis = ['.'.join(c.split('.')[:2]) for c in self.rcombis]
         self.station = [
             [n, s] for n, s in self.station if
-            fnmatch.filter(self.rcombis, f'{n}-*.{s}-*') or fnmatch.filter(
-                self.rcombis, f'*-{n}.*-{s}')]
+            fnmatch.filter(rcombis, f'{n}-*.{s}-*') or fnmatch.filter(
+                rcombis, f'*-{n}.*-{s}')]
         # same check for avail_raw_data
         self.avail_raw_data = [
             [n, s, c] for n, s, c in self.avail_raw_data if
-            fnmatch.filter(self.rcombis, f'{n}-*.{s}-*') or fnmatch.filter(
-                self.rcombis, f'*-{n}.*-{s}')]
+            fnmatch.filter(rcombis, f'{n}-*.{s}-*') or fnmatch.filter(
+                rcombis, f'*-{n}.*-{s}')]
 
     def find_interstat_dist(self, dis: float):
         """
@@ -836,9 +838,11 @@ def is_in_xcombis(id1: str, id2: str, rcombis: List[str] = None) -> bool:
     tcombi = f'{n1}-{n2}.{s1}-{s2}.{c1}-{c2}'
     tcombi2 = f'{n2}-{n1}.{s2}-{s1}.{c2}-{c1}'
     for combi in rcombis:
-        if fnmatch.fnmatch(tcombi, combi+'*') or fnmatch.fnmatch(
-                tcombi2, combi+'*'):
-            return True
+        # The channel information can be omitted
+        for pattern in (combi, combi+'.*'):
+            if fnmatch.fnmatch(tcombi, pattern) or fnmatch.fnmatch(
+                    tcombi2, pattern):
+                return True
     return False
 
 
@@ -1260,6 +1264,9 @@ def compute_network_station_combinations(
     """
     netcombs = []
     statcombs = []
+    if combis is not None:
+        # Combinations might be given in either order and with channels
+        combis = ['.'.join(c.split('.')[:2]) for c in combis]
     if method == 'betweenStations':
         for ii, (n, s) in enumerate(zip(netlist, statlist)):
             for jj in range(ii+1, len(netlist)):
@@ -1271,6 +1278,7 @@ def compute_network_station_combinations(
                     if (
                         combis is not None
                         and f'{nc[0]}-{nc[1]}.{sc[0]}-{sc[1]}' not in combis
+                        and f'{nc[1]}-{nc[0]}.{sc[1]}-{sc[0]}' not in combis
                     ):
                         continue
                     netcombs.append('%s-%s' % (nc[0], nc[1]))
-- 
2.43.0


From 0daea5564e257f870be5fe6d914db55cc7dcd5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 007/148] fix: Correlator leaves the caller's options unchanged

---
 src/seismic/correlate/correlate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 38a43b6..0bf8914 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -60,6 +60,8 @@ class Correlator(object):
         if isinstance(options, str):
             with open(options) as file:
                 options = yaml.load(file, Loader=yaml.FullLoader)
+        # the options are extended below, don't alter the original
+        options = deepcopy(options)
         # init MPI
         self.comm = MPI.COMM_WORLD
         self.psize = self.comm.Get_size()
-- 
2.43.0


From 2bdd2b5f864158af76989b7918593776d8240a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:13 +0000
Subject: [PATCH 008/148] fix: component None selects all components as
 documented

---
 src/seismic/correlate/correlate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 0bf8914..07cd07a 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -136,6 +136,9 @@ class Correlator(object):
         network = options['net']['network']
         station = options['net']['station']
         component = options['net']['component']
+        if component in (None, 'None'):
+            # all components
+            component = '*'
 
         # Store_Client
         self.store_client = store_client
-- 
2.43.0


From 5160e8dc622fddb09e5286792e3f8c43f14555cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 009/148] fix: correlations have the right lags if the padded
 length is odd

---
 src/seismic/correlate/correlate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 07cd07a..c472ede 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -712,7 +712,7 @@ class Correlator(object):
         ######################################
         # correlation
         csize = len(self.options['combinations'])
-        irfftsize = (fftsize-1)*2
+        irfftsize = zmsize[1]
         sampleToSave = int(
             np.ceil(
                 corr_args['lengthToSave'] * self.sampling_rate))
@@ -762,7 +762,7 @@ class Correlator(object):
             ######################################
             # frequency domain postProcessing
             #
-            tmp = np.fft.irfft(M).real
+            tmp = np.fft.irfft(M, n=irfftsize).real
 
             # cut the center and do fftshift
             C[ii, :] = np.concatenate(
-- 
2.43.0


From 1ba561779929625d3ce3f23ed5c229b672dc51f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:06 +0000
Subject: [PATCH 010/148] fix: component None selects all components (look-up
 in the archive)

---
 src/seismic/correlate/correlate.py | 3 ---
 src/seismic/trace_data/waveform.py | 3 +++
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index c472ede..c3784b2 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -136,9 +136,6 @@ class Correlator(object):
         network = options['net']['network']
         station = options['net']['station']
         component = options['net']['component']
-        if component in (None, 'None'):
-            # all components
-            component = '*'
 
         # Store_Client
         self.store_client = store_client
diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index c9d49f9..9ed3fa1 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -244,6 +244,9 @@ class Store_Client(object):
         :return: _description_
         :rtype: _type_
         """
+        if component in (None, 'None'):
+            # all components
+            component = '*'
         dirlist = glob.glob(
             os.path.join(
                 self.sds_root, '*', network, station, '??'+component+'.?'))
-- 
2.43.0


From f55f66914d4aa66a40c33c23862b0ff8f542dab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:53 +0000
Subject: [PATCH 011/148] fix: normalised autocorrelations are one at zero lag,
 Nyquist bin counted once

---
 src/seismic/correlate/correlate.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index c3784b2..a5a71f6 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -720,6 +720,12 @@ class Correlator(object):
         ind = pmap == self.rank
         ind = np.arange(csize)[ind]
         startlags = np.zeros(csize, dtype=np.float32)
+        # energy of the records, bins that have no counterpart at negative
+        # frequencies (i.e., zero and Nyquist) must not be counted twice
+        energy = 2.*np.sum(np.abs(B)**2, axis=1) - np.abs(B[:, 0])**2
+        if irfftsize % 2 == 0:
+            energy -= np.abs(B[:, -1])**2
+        energy /= irfftsize
         for ii in ind:
             # offset of starttimes in samples(just remove fractions of samples)
             offset = (
@@ -736,18 +742,8 @@ class Correlator(object):
             offset -= roffset
             # normalization factor of fft correlation
             if corr_args['normalize_correlation']:
-                norm = (
-                    np.sqrt(
-                        2.*np.sum(B[self.options[
-                            'combinations'][ii][0], :]
-                            * B[self.options['combinations'][ii][0], :].conj())
-                        - B[self.options['combinations'][ii][0], 0]**2)
-                    * np.sqrt(
-                        2.*np.sum(B[self.options[
-                            'combinations'][ii][1], :]
-                            * B[self.options['combinations'][ii][1], :].conj())
-                        - B[self.options['combinations'][ii][1], 0]**2)
-                    / irfftsize).real
+                comb = self.options['combinations'][ii]
+                norm = np.sqrt(energy[comb[0]]) * np.sqrt(energy[comb[1]])
             else:
                 norm = 1.
 
-- 
2.43.0


From 003ff06e2e296ff5818d7b19a697358183942193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:55 +0000
Subject: [PATCH 012/148] fix: zero padding avoids wrap around for fractional
 sample numbers

---
 src/seismic/correlate/preprocessing_td.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/seismic/correlate/preprocessing_td.py b/src/seismic/correlate/preprocessing_td.py
index db8c092..0dfb556 100644
--- a/src/seismic/correlate/preprocessing_td.py
+++ b/src/seismic/correlate/preprocessing_td.py
@@ -475,10 +475,11 @@ def zeroPadding(A: np.ndarray, args: dict, params: dict, axis=1) -> np.ndarray:
     if args['type'] == 'nextFastLen':
         N = next_fast_len(npts)
     elif args['type'] == 'avoidWrapAround':
-        N = npts + params['sampling_rate'] * params['lengthToSave']
+        N = npts + int(np.ceil(
+            params['sampling_rate'] * params['lengthToSave']))
     elif args['type'] == 'avoidWrapFastLen':
-        N = next_fast_len(int(
-            npts + params['sampling_rate'] * params['lengthToSave']))
+        N = next_fast_len(npts + int(np.ceil(
+            params['sampling_rate'] * params['lengthToSave'])))
     else:
         raise ValueError("type '%s' of zero padding not implemented" %
                          args['type'])
-- 
2.43.0


From b9d53196a6ab4108232b7e671b610ce22c915aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:37 +0000
Subject: [PATCH 013/148] fix: lag axis of correlations computed in
 non-alphabetical order

---
 src/seismic/correlate/correlate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index a5a71f6..534f639 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -390,7 +390,8 @@ class Correlator(object):
         if self.rank == 0:
             for ii, (startlag, comb) in enumerate(
                     zip(startlags, self.options['combinations'])):
-                endlag = startlag + len(A[ii, :])/self.options['sampling_rate']
+                endlag = startlag + (
+                    len(A[ii, :])-1)/self.options['sampling_rate']
                 cst.append(
                     CorrTrace(
                         A[ii], header1=st[comb[0]].stats,
-- 
2.43.0


From 583036e0bcbad7c04fd2262d9b639d4a57d853dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:49 +0000
Subject: [PATCH 014/148] fix: an empty frequency bin does not switch off
 spectral whitening

---
 src/seismic/correlate/preprocessing_fd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/correlate/preprocessing_fd.py b/src/seismic/correlate/preprocessing_fd.py
index f2f59d8..eabb2e9 100644
--- a/src/seismic/correlate/preprocessing_fd.py
+++ b/src/seismic/correlate/preprocessing_fd.py
@@ -106,6 +106,8 @@ def spectralWhitening(B: np.ndarray, args: dict, params) -> np.ndarray:
             for ii in np.arange(0, B.shape[0], 3):
                 absB[ii:ii+3, :] = np.tile(
                     np.atleast_2d(np.mean(absB[ii:ii+3, :], axis=0)), [3, 1])
+    # Empty bins remain zero, one must not prevent whitening of all others
+    absB[absB == 0] = 1.
     with np.errstate(invalid='raise'):
         try:
             B = np.true_divide(B, absB)
-- 
2.43.0


From 835271e37f42d897cd015bf3ad0a33af05aee6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:04 +0000
Subject: [PATCH 015/148] fix: detrending and tapering at gaps retain masked
 samples at the ends of a trace

---
 src/seismic/correlate/preprocessing_stream.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/seismic/correlate/preprocessing_stream.py b/src/seismic/correlate/preprocessing_stream.py
index 6ff6051..ff1ed91 100644
--- a/src/seismic/correlate/preprocessing_stream.py
+++ b/src/seismic/correlate/preprocessing_stream.py
@@ -89,14 +89,15 @@ def cos_taper(
         if lossless:
             warn(
                 'Tapering lossless at masked values is not supported')
+        if np.ma.getmaskarray(tr.data).all():
+            raise ValueError('Trace holds no data')
         st = tr.split()
         st = cos_taper_st(st, taper_len, False, False)
         st = st.merge()
-        if st.count():
-            tr.data = st[0].data
-            return tr
-        else:
-            raise ValueError('Taper length must be larger than 0 s')
+        # Retain gaps at the ends of the trace
+        st.trim(tr.stats.starttime, tr.stats.endtime, pad=True)
+        tr.data = st[0].data
+        return tr
     tl_n = round(taper_len*tr.stats.sampling_rate)
     if tl_n * 2 > tr.stats.npts:
         raise ValueError(
@@ -127,9 +128,15 @@ def detrend_st(st: Stream, *args, **kwargs) -> Stream:
         :func:`obspy.core.trace.Trace.detrend`
     """
     for tr in st:
+        if np.ma.getmaskarray(tr.data).all():
+            # nothing but gaps
+            continue
         sst = tr.split()
         sst.detrend(*args, **kwargs)
-        tr.data = sst.merge()[0].data
+        sst.merge()
+        # Retain gaps at the ends of the trace
+        sst.trim(tr.stats.starttime, tr.stats.endtime, pad=True)
+        tr.data = sst[0].data
     return st
 
 
-- 
2.43.0


From 3daa811074feccd367f93083b3eb00fb881bbfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 016/148] fix: masks starting at or before and ending at or
 after the trace are applied

---
 src/seismic/correlate/preprocessing_stream.py | 32 ++++---------------
 1 file changed, 6 insertions(+), 26 deletions(-)

diff --git a/src/seismic/correlate/preprocessing_stream.py b/src/seismic/correlate/preprocessing_stream.py
index ff1ed91..f44ffef 100644
--- a/src/seismic/correlate/preprocessing_stream.py
+++ b/src/seismic/correlate/preprocessing_stream.py
@@ -272,40 +272,20 @@ def trace_mask_at_utc(
     """
     start = tr.stats.starttime
     end = tr.stats.endtime
-    # starts in trace
-    ii = (starts < end) * (starts > start)
-    # ends in trace
-    jj = (ends < end) * (ends > start)
-
     mask = np.zeros(tr.data.shape, dtype=bool)
 
-    # masks that are completlely in trace
-    kk = jj*ii
-    for s, e in zip(starts[kk], ends[kk]):
-        # Find start-index in trace
+    for s, e in zip(starts, ends):
+        if e < start or s > end:
+            # mask does not touch the trace
+            continue
+        # Find start-index in trace, might start before the trace
         t = s-start
-        ns = int(np.floor(tr.stats.sampling_rate*t))
+        ns = max(int(np.floor(tr.stats.sampling_rate*t)), 0)
         # find stop index
         t = e-start
         ne = int(np.ceil(tr.stats.sampling_rate*t))+1
         mask[ns:ne] = True
 
-    # only start of mask in trace
-    ll = ii * ~jj
-    for s in starts[ll]:
-        # Find start-index in trace
-        t = s-start
-        ns = int(np.floor(tr.stats.sampling_rate*t))
-        mask[ns:] = True
-
-    # only end of mask in trace
-    ll = ~ii * jj
-    for e in ends[ll]:
-        # Find start-index in trace
-        t = e-start
-        ne = int(np.ceil(tr.stats.sampling_rate*t))+1
-        mask[:ne] = True
-
     if reverse:
         mask = ~mask
     # Mask the array
-- 
2.43.0


From aed719e3399cd1dcbebb1205c37ec9a4965e2277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 017/148] fix: masked samples do not enter the correlation

---
 src/seismic/correlate/correlate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 534f639..6ade06c 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -793,7 +793,9 @@ def st_to_np_array(st: Stream, npts: int) -> Tuple[np.ndarray, Stream]:
     """
     A = np.zeros((st.count(), npts), dtype=np.float32)
     for ii, tr in enumerate(st):
-        A[ii, :tr.stats.npts] = tr.data
+        # a plain assignment would copy the data below the mask
+        A[ii, :tr.stats.npts] = np.ma.filled(
+            np.ma.asarray(tr.data, A.dtype), np.nan)
         del tr.data  # Not needed any more, just uses up RAM
     return A, st
 
-- 
2.43.0


From 25241255908215ffd758d633f68dbb82995b6481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:58 +0000
Subject: [PATCH 018/148] fix: correlations of the first window are stacked
 with their own read increment

---
 src/seismic/correlate/correlate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 6ade06c..01746db 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -344,8 +344,8 @@ class Correlator(object):
         inv = self.comm.bcast(inv, root=0)
 
         for st, write_flag in self._generate_data():
-            cst.extend(self._pxcorr_inner(st, inv))
             if write_flag:
+                # A new read increment starts here
                 self.logger.debug('Writing Correlations to file.')
                 # Here, we can recombine the correlations for the read_len
                 # size (i.e., stack)
@@ -353,6 +353,7 @@ class Correlator(object):
                 if cst.count():
                     self._write(cst)
                     cst.clear()
+            cst.extend(self._pxcorr_inner(st, inv))
 
         # write the remaining data
         if cst.count():
-- 
2.43.0


From d99f7523c6f65306e6616a52742800a26ba7cea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:24 +0000
Subject: [PATCH 019/148] fix: windows start at the read increment if
 preprocess_subdiv is used

---
 src/seismic/correlate/correlate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 01746db..846f14a 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -548,6 +548,10 @@ class Correlator(object):
                         f'{st[0].stats.network}.{st[0].stats.station} and time'
                         f' {t}.\nThe Original Error Message was {e}.')
                     continue
+            else:
+                # The windows start at the beginning of the read increment
+                st.merge()
+                st.trim(startt, endt, pad=True)
 
             # Slice the stream in correlation length
             # -> Loop over correlation increments
-- 
2.43.0


From b35bd6369c893f2fc4270cb5a71c94d42e5ce8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 020/148] fix: data with too low sampling rate is discarded and
 does not block other processes

---
 src/seismic/correlate/correlate.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 846f14a..dffb246 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -529,7 +529,11 @@ class Correlator(object):
                     'Downsampling failed for '
                     f'{st[0].stats.network}.{st[0].stats.station} and time'
                     f' {t}.\nThe Original Error Message was {e}.')
-                continue
+            # Traces with too low sampling rates cannot be correlated. Other
+            # processes might hold data, so don't skip the increment
+            for tr in st:
+                if tr.stats.sampling_rate < .999*sampling_rate:
+                    st.remove(tr)
             # The actual data in the mseeds was changed from int to float64
             # now,
             # Save some space by changing it back to 32 bit (most of the
@@ -547,7 +551,8 @@ class Correlator(object):
                         'Stream preprocessing failed for '
                         f'{st[0].stats.network}.{st[0].stats.station} and time'
                         f' {t}.\nThe Original Error Message was {e}.')
-                    continue
+                    # Other processes might hold data
+                    st = Stream()
             else:
                 # The windows start at the beginning of the read increment
                 st.merge()
-- 
2.43.0


From 15b7469c3a8014dcbe3d2939ae9e31cd8e446874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:45 +0000
Subject: [PATCH 021/148] fix: fully masked windows are not correlated if
 preprocess_subdiv is used

---
 src/seismic/correlate/correlate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index dffb246..5adb1b2 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -633,6 +633,8 @@ class Correlator(object):
                                 'time '
                                 f'{t}.\nThe Original Error Message was {e}.')
                         continue
+                    # nothing might be left of a trace (masks)
+                    mu.get_valid_traces(win)
                     if self.rank == 0:
                         self.options['combinations'] = calc_cross_combis(
                             win, self.ex_dict,
-- 
2.43.0


From 72e651ac52ac98273440f842976ce6cedf1eefa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:41 +0000
Subject: [PATCH 022/148] fix: all processes go through the same number of
 windows if sampling points are shifted

---
 src/seismic/correlate/correlate.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 5adb1b2..f974997 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -1431,12 +1431,17 @@ def generate_corr_inc(
     :rtype: Generator[Stream]
     """
 
+    # All processes have to go through an equally long loop
+    # else this will cause a deadlock
+    nwin = int(np.ceil(read_len/subdivision['corr_inc']))
     try:
         # Second loop to return the time window in correlation length
         for ii, win0 in enumerate(st.slide(
             subdivision['corr_len']-st[0].stats.delta, subdivision['corr_inc'],
                 include_partial_windows=True)):
-
+            if ii == nwin:
+                # the sampling points of the traces can be shifted
+                break
             # We use trim so the windows have the right time and
             # are filled with masked arrays for places without values
             starttrim = st[0].stats.starttime + ii*subdivision['corr_inc']
@@ -1449,8 +1454,5 @@ def generate_corr_inc(
     except IndexError:
         # processes with no data end up here
         win = Stream()
-        # A little dirty, but it has to go through an equally long loop
-        # else this will cause a deadlock
-        for _ in range(int(np.ceil(
-                read_len/subdivision['corr_inc']))):
+        for _ in range(nwin):
             yield win
-- 
2.43.0


From 0c9e0793c196205bf64e3e82324dab7ae5002ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:57 +0000
Subject: [PATCH 023/148] fix: detrending with method scipy does not hand the
 method on to scipy

---
 src/seismic/correlate/preprocessing_td.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/seismic/correlate/preprocessing_td.py b/src/seismic/correlate/preprocessing_td.py
index 0dfb556..5fa9ffd 100644
--- a/src/seismic/correlate/preprocessing_td.py
+++ b/src/seismic/correlate/preprocessing_td.py
@@ -91,6 +91,7 @@ def detrend_scipy(A: np.ndarray, args: dict, params: dict) -> np.ndarray:
     """
     if np.all(np.isnan(A)):
         return A
+    args = {k: v for k, v in args.items() if k != 'method'}
     for ii in range(A.shape[0]):
         try:
             A[ii, ~np.isnan(A[ii])] = sp_detrend(
-- 
2.43.0


From 9bdc0c466b9c40bf6d32da462296cb8319ae7c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:57 +0000
Subject: [PATCH 024/148] fix: muting with extend_gaps mutes exactly the stated
 parts

---
 src/seismic/correlate/preprocessing_td.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/preprocessing_td.py b/src/seismic/correlate/preprocessing_td.py
index 5fa9ffd..fe091c7 100644
--- a/src/seismic/correlate/preprocessing_td.py
+++ b/src/seismic/correlate/preprocessing_td.py
@@ -229,11 +229,12 @@ def mute(A: np.ndarray, args: dict, params: dict) -> np.ndarray:
     mask[D > np.tile(thres, (D.shape[1], 1)).T] = 0
     # extend the muted segments to make sure the whole segment is zero after
     if args['extend_gaps']:
-        tap = np.ones(ntap)/ntap
+        # Odd number of equal weights: symmetric and not subject to rounding
+        tap = np.ones(2*(ntap//2) + 1)
         for ind in range(A.shape[0]):
             mask[ind, :] = np.convolve(mask[ind, :], tap, mode='same')
         nmask = np.ones_like(D)
-        nmask[mask < 1.] = 0
+        nmask[mask < len(tap)] = 0
     else:
         nmask = mask
 
-- 
2.43.0


From e4bb2e28f8238a14d23f725403343d80ad35d6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:57 +0000
Subject: [PATCH 025/148] fix: time domain normalisation leaves traces of zeros
 defined

---
 src/seismic/correlate/preprocessing_td.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/correlate/preprocessing_td.py b/src/seismic/correlate/preprocessing_td.py
index fe091c7..4a143dd 100644
--- a/src/seismic/correlate/preprocessing_td.py
+++ b/src/seismic/correlate/preprocessing_td.py
@@ -394,6 +394,8 @@ def TDnormalization(A: np.ndarray, args: dict, params: dict) -> np.ndarray:
             B[ind, :] = np.convolve(B[ind, ::-1], window, mode='same')[::-1]
             # damping factor
             B[ind, :] += np.max(B[ind, :])*1e-6
+    # traces without any energy remain zero
+    B[B == 0] = 1
     # normalization
     A /= np.sqrt(B)
     return A
-- 
2.43.0


From 66f3a04d10564f7a688488affa746e63d0203d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:57 +0000
Subject: [PATCH 026/148] fix: zero phase filters treat every trace of a matrix
 on its own

---
 src/seismic/correlate/preprocessing_td.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/preprocessing_td.py b/src/seismic/correlate/preprocessing_td.py
index 4a143dd..163c0c5 100644
--- a/src/seismic/correlate/preprocessing_td.py
+++ b/src/seismic/correlate/preprocessing_td.py
@@ -431,8 +431,11 @@ def TDfilter(A: np.ndarray, args: dict, params: dict) -> np.ndarray:
     func = func_from_str('obspy.signal.filter.%s' % args['type'])
     args = deepcopy(args)
     args.pop('type')
-    A = func(A, df=params['sampling_rate'], **args)
-    return A
+    if A.ndim == 1:
+        return func(A, df=params['sampling_rate'], **args)
+    # obspy would reverse the order of the traces for zero phase filters
+    B = [func(tr, df=params['sampling_rate'], **args) for tr in A]
+    return np.reshape(B, A.shape)
 
 
 def zeroPadding(A: np.ndarray, args: dict, params: dict, axis=1) -> np.ndarray:
-- 
2.43.0


From 2658f41331c5c16f0119e47626d62847a3710039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:19 +0000
Subject: [PATCH 027/148] fix: one-bit normalised spectra of traces with an odd
 number of samples

---
 src/seismic/correlate/preprocessing_fd.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/preprocessing_fd.py b/src/seismic/correlate/preprocessing_fd.py
index eabb2e9..ff55f2b 100644
--- a/src/seismic/correlate/preprocessing_fd.py
+++ b/src/seismic/correlate/preprocessing_fd.py
@@ -66,12 +66,18 @@ def FDsignBitNormalization(
     :type args: dictionary
     :param args: not used in this function
     :type params: dictionary
-    :param params: not used in this function
+    :param params: params['freqs'] (frequencies of the samples in `B`) and
+        params['sampling_rate'] define the number of samples in time domain.
+        If not given, this number is even.
 
     :rtype: numpy.ndarray
     :return: frequency transform of the 1-bit normalized data
     """
-    B = np.fft.irfft(B)
+    npts = 2*(B.shape[1]-1)
+    if 'freqs' in params:
+        # might be an odd number as well
+        npts = int(round(params['sampling_rate']/params['freqs'][1]))
+    B = np.fft.irfft(B, n=npts)
     # np.sign only takes the real part into account
     C = np.sign(B)
     return np.fft.rfft(C)
-- 
2.43.0


From 3144b964fe563dc294605a9bba6445a1297622a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:21 +0000
Subject: [PATCH 028/148] fix: integer data is tapered, not muted

---
 src/seismic/correlate/preprocessing_stream.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/seismic/correlate/preprocessing_stream.py b/src/seismic/correlate/preprocessing_stream.py
index f44ffef..36c3eee 100644
--- a/src/seismic/correlate/preprocessing_stream.py
+++ b/src/seismic/correlate/preprocessing_stream.py
@@ -98,6 +98,9 @@ def cos_taper(
         st.trim(tr.stats.starttime, tr.stats.endtime, pad=True)
         tr.data = st[0].data
         return tr
+    if not np.issubdtype(tr.data.dtype, np.inexact):
+        # The taper would be truncated to integers as well
+        tr.data = tr.data.astype(np.float64)
     tl_n = round(taper_len*tr.stats.sampling_rate)
     if tl_n * 2 > tr.stats.npts:
         raise ValueError(
-- 
2.43.0


From 4a54b3e17a21a2148a4913d690646fdbe6e03ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:23 +0000
Subject: [PATCH 029/148] fix: arrays without any valid sample are left as they
 are by interpolate_gaps

---
 src/seismic/utils/miic_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/utils/miic_utils.py b/src/seismic/utils/miic_utils.py
index e7f9136..5815bdd 100644
--- a/src/seismic/utils/miic_utils.py
+++ b/src/seismic/utils/miic_utils.py
@@ -497,7 +497,8 @@ def interpolate_gaps(A: np.ndarray, max_gap_len: int = -1) -> np.ndarray:
     :rtype: np.ndarray
     """
     A = np.ma.masked_invalid(A)
-    if not np.ma.is_masked(A):
+    if not np.ma.is_masked(A) or np.ma.getmaskarray(A).all():
+        # nothing to interpolate (from)
         return A
     mask = np.ma.getmask(A)
 
-- 
2.43.0


From 45bee67f54c9b8763818f9129d545c9d4553e04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:53 +0000
Subject: [PATCH 030/148] fix: slices of a single correlation keep two
 dimensions

---
 src/seismic/correlate/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 9acc41e..483ec67 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -818,7 +818,7 @@ class CorrBulk(object):
             ii = np.logical_and(
                 np.array(self.stats.corr_start) >= starttime,
                 np.array(self.stats.corr_end) <= endtime)
-        ii = np.squeeze(ii)
+        ii = np.atleast_1d(np.squeeze(ii))
         if not len(np.nonzero(ii)[0]):
             warnings.warn(
                 'No slices found in the requested time. Returning empty arr.')
-- 
2.43.0


From c5c2deaf9e218d247fbee11c9e7c2a5d52e14a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:53 +0000
Subject: [PATCH 031/148] fix: slices and read objects keep the processing
 history

---
 src/seismic/correlate/stream.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 483ec67..4ffb110 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -66,7 +66,9 @@ class CorrBulk(object):
         else:
             self.stats = CorrStats()
             self.stats['ntrcs'], self.stats['npts'] = A.shape
-        self.stats['processing_bulk'] = []
+        # keep the history of slices and of objects read from a file
+        if 'processing_bulk' not in self.stats:
+            self.stats['processing_bulk'] = []
         self.ref_trc = None
 
     def __getitem__(self, item):
-- 
2.43.0


From 650c93910f7b8cab6387a12c088423a0bc96dd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:53 +0000
Subject: [PATCH 032/148] fix: undefined correlations do not spread when
 clipping

---
 src/seismic/monitor/post_corr_process.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index ecf5072..8c3655f 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -47,7 +47,8 @@ def corr_mat_clip(A: np.ndarray, thres: float, axis: int) -> np.ndarray:
     :return: The clipped array
     :rtype: np.ndarray
     """
-    clipv = thres * np.std(A, axis=axis)
+    # ignore undefined correlations
+    clipv = thres * np.nanstd(A, axis=axis)
     if axis == 1:
         A = np.clip(A.T, -clipv, clipv).T
     else:
-- 
2.43.0


From bbf8cd5ddf95e4cdd341d64125e3657d4711a9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:53 +0000
Subject: [PATCH 033/148] fix: trimming keeps the lag of every sample and those
 on the limits

---
 src/seismic/monitor/trim.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/seismic/monitor/trim.py b/src/seismic/monitor/trim.py
index b1bfedb..7cbb309 100644
--- a/src/seismic/monitor/trim.py
+++ b/src/seismic/monitor/trim.py
@@ -41,9 +41,12 @@ def corr_mat_trim(
     """
 
     # fetch indices of start and end
-    start = int(
-        np.floor((starttime-stats['start_lag'])*stats['sampling_rate']))
-    end = int(np.floor((endtime-stats['start_lag'])*stats['sampling_rate']))
+    # only lags inside of the limits are kept, don't lose samples exactly on
+    # the limits due to round-off errors
+    start = int(np.ceil(np.round(
+        (starttime-stats['start_lag'])*stats['sampling_rate'], 6)))
+    end = int(np.floor(np.round(
+        (endtime-stats['start_lag'])*stats['sampling_rate'], 6)))
 
     # check range
     if start < 0:
@@ -63,6 +66,6 @@ def corr_mat_trim(
         stats['npts'] = data.shape[1]
 
     # set starttime, endtime and npts of the new stats
-    stats['start_lag'] = starttime
+    stats['start_lag'] += start/stats['sampling_rate']
 
     return data, stats
-- 
2.43.0


From 1d5d01208bd642c84c6fadf8d5fbbf7a31d61470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:53 +0000
Subject: [PATCH 034/148] fix: taper the centre of one-sided correlations

---
 src/seismic/monitor/post_corr_process.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 8c3655f..c655402 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -574,17 +574,18 @@ def corr_mat_taper_center(
     taper[-slope_length:] = tap[:slope_length]
 
     # calculate start end end points of the taper
-    start = int(-stats['start_lag']*stats['sampling_rate'] - length/2)
+    start = int(np.round(
+        -stats['start_lag']*stats['sampling_rate'])) - length//2
+    # last sample to be tapered, the taper might exceed the trace
+    end = start + length + 1
     if start < 0:
-        taper = taper[np.absolute(start):]
+        taper = taper[-start:]
         start = 0
-
-    end = start + length
     if end > stats['npts']:
-        end = stats['npts']
-        taper = taper[0:end - start]
+        end = max(stats['npts'], start)
+    taper = taper[0:max(end - start, 0)]
     # apply taper
-    data[:, start:end + 1] *= \
+    data[:, start:start + len(taper)] *= \
         np.tile(np.atleast_2d(taper), (data.shape[0], 1))
 
     return data
-- 
2.43.0


From a1dcfc0161cccf42876799763c478ced241c795b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:53 +0000
Subject: [PATCH 035/148] fix: selecting by time of day for windows ending at
 or after midnight

---
 src/seismic/correlate/stream.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 4ffb110..16279ed 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -16,7 +16,6 @@ from typing import Iterator, List, Tuple, Optional
 from copy import deepcopy
 import warnings
 from matplotlib import pyplot as plt
-import datetime
 
 
 import numpy as np
@@ -1098,11 +1097,17 @@ class CorrStream(Stream):
         :rtype: CorrStream
         """
         cst_select = CorrStream()
-        start = datetime.time(*start)
-        end = datetime.time(*end)
+        # seconds since midnight
+        start, end = (
+            sum(x*f for x, f in zip(t, (3600, 60, 1))) for t in (start, end))
+        # The requested time might include midnight
+        length = (end - start) % 86400 or 86400
         for tr in self:
-            if tr.stats.corr_start.time >= start \
-                    and tr.stats.corr_end.time <= end:
+            cs = tr.stats.corr_start
+            midnight = UTCDateTime(year=cs.year, julday=cs.julday)
+            # time since the last beginning of the requested window
+            t = np.round(cs - midnight - start, 6) % 86400
+            if np.round(t + (tr.stats.corr_end - cs), 6) <= length:
                 if not exclude:
                     cst_select.append(tr)
             else:
-- 
2.43.0


From 03e4a11f4918ec63092fd193f209cf717971a281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:53 +0000
Subject: [PATCH 036/148] fix: stacking considers the latest end of all
 correlations

---
 src/seismic/correlate/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 16279ed..8bea14d 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -1233,7 +1233,7 @@ class CorrStream(Stream):
         if not starttime:
             starttime = self[0].stats.corr_start
         if not endtime:
-            endtime = self[-1].stats.corr_end
+            endtime = max(tr.stats.corr_end for tr in self)
         outst = CorrStream()
         if stack_len == 'daily':
             starttime = UTCDateTime(
-- 
2.43.0


From a72716ce0571283c204d5f364e3e1ee13296e62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:53 +0000
Subject: [PATCH 037/148] fix: header and weights of stacks only regard what is
 stacked

---
 src/seismic/correlate/stream.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 8bea14d..57f2e68 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -1632,14 +1632,15 @@ def stack_st(st: CorrStream, weight: str, norm: bool = True) -> CorrTrace:
     :return: Single trace with stacked data
     :rtype: CorrTrace
     """
+    # only correlations with the longest lag axis are stacked
+    npts = max(tr.stats.npts for tr in st)
+    st = st.select(npts=npts)
     st.sort(keys=['corr_start'])
     stats = st[0].stats.copy()
-    stats['corr_end'] = st[-1].stats['corr_end']
-    st.sort(keys=['npts'])
-    npts = st[-1].stats.npts
+    stats['corr_end'] = max(tr.stats.corr_end for tr in st)
     stack = []
     dur = []  # duration of each trace
-    for tr in st.select(npts=npts):
+    for tr in st:
         stack.append(tr.data)
         dur.append(tr.stats.corr_end-tr.stats.corr_start)
     A = np.array(stack)
@@ -1651,7 +1652,9 @@ def stack_st(st: CorrStream, weight: str, norm: bool = True) -> CorrTrace:
         return CorrTrace(data, _header=stats)
     elif weight == 'by_length':
         # Weight by the length of each trace
-        data = np.nansum((A.T*np.array(dur)).T, axis=0)/np.nansum(dur)
+        dur = np.array(dur)
+        # undefined samples do not count
+        data = np.nansum((A.T*dur).T, axis=0)/np.dot(dur, ~np.isnan(A))
         if norm:
             norm = np.nanmax(np.abs(data))
             data /= norm  # np.tile(np.atleast_2d(norm).T, (1, A.shape[1]))
-- 
2.43.0


From 1dd262e3559b50305d460fcf23361cda0afd3889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:53 +0000
Subject: [PATCH 038/148] fix: extract traces with equal similarity

---
 src/seismic/monitor/post_corr_process.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index c655402..3db3ab0 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -780,6 +780,9 @@ def corr_mat_extract_trace(
         # find the traces that agree with the requested percentile and calc
         # their mean
         ind = cor > tres
+        if not ind.any():
+            # All correlations are equally similar (e.g., only one)
+            ind = cor == tres
         out = np.mean(ndata[ind, :], 0)
     else:
         raise ValueError("Method '%s' not defined." % method)
-- 
2.43.0


From f59edca394d48bdcdda5160dd4d0c2a907710ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:53 +0000
Subject: [PATCH 039/148] fix: headers of resampled correlations match the new
 bins

---
 src/seismic/monitor/post_corr_process.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 3db3ab0..f3db7c6 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -283,6 +283,7 @@ def corr_mat_resample(
     # new corr_data matrix
     nmat = np.empty([len(stime), data.shape[1]])
     nmat.fill(np.nan)
+    inds = []
 
     for ii in range(len(stime)):
         # index of measurements between start_time[ii] and end_time[ii]
@@ -295,9 +296,16 @@ def corr_mat_resample(
             # more than one measurement in range
             nmat[ii, :] = np.mean(mm[ind[0], :], axis=0).filled(np.nan)
 
+        # header entries that differ between correlations
+        inds.append(ind[0][0] if len(ind[0]) else 0)
+
     # assign new data
     data = nmat
 
+    for key in ('location', 'channel'):
+        if isinstance(stats.get(key), (list, np.ndarray)):
+            stats[key] = [stats[key][ii] for ii in inds]
+    stats['ntrcs'] = len(stime)
     stats['corr_start'] = [UTCDateTime(st) for st in stime]
     stats['corr_end'] = [UTCDateTime(et) for et in etime]
 
-- 
2.43.0


From 5ebfaa8ad144875a1f38ab3eb3a13917b5fe7360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:47 +0000
Subject: [PATCH 040/148] fix: correlation matrices read from files can be
 processed

---
 src/seismic/correlate/stream.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 57f2e68..ee3523e 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -59,6 +59,11 @@ class CorrBulk(object):
         """
         self.data = A
         if stats:
+            if not isinstance(stats, CorrStats):
+                # Read from a file, numpy types only serve the storage
+                stats = CorrStats({
+                    k: v.tolist() if hasattr(v, 'tolist') else v
+                    for k, v in stats.items()})
             self.stats = stats
         elif statlist:
             self.stats = convert_statlist_to_bulk_stats(statlist)
-- 
2.43.0


From 1d14bb2fbf026abed0fa3dd59569b0d38acdb833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:48 +0000
Subject: [PATCH 041/148] fix: files with a single correlation

---
 src/seismic/correlate/stream.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index ee3523e..c3e5262 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -64,6 +64,10 @@ class CorrBulk(object):
                 stats = CorrStats({
                     k: v.tolist() if hasattr(v, 'tolist') else v
                     for k, v in stats.items()})
+                for k in ('corr_start', 'corr_end'):
+                    if isinstance(stats[k], UTCDateTime):
+                        # only one correlation
+                        stats[k] = [stats[k]]
             self.stats = stats
         elif statlist:
             self.stats = convert_statlist_to_bulk_stats(statlist)
-- 
2.43.0


From f8cc81eecdd11f41c40df7fdf73a305b0464cc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:49 +0000
Subject: [PATCH 042/148] fix: mirror lag axes with round-off errors and leave
 unaligned ones

---
 src/seismic/monitor/post_corr_process.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index f3db7c6..707ebcd 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -469,7 +469,7 @@ def corr_mat_mirror(data: np.ndarray, stats: CorrStats) -> Tuple[
     :rtype: Tuple[np.ndarray, CorrStats]
     """
 
-    zero_sample = -(stats['start_lag']*stats['sampling_rate'])
+    zero_sample = np.round(-(stats['start_lag']*stats['sampling_rate']), 6)
 
     if zero_sample <= 0:
         print('No data present for mirroring: starttime > zerotime.')
@@ -478,8 +478,8 @@ def corr_mat_mirror(data: np.ndarray, stats: CorrStats) -> Tuple[
         print('No data present for mirroring: endtime < zerotime.')
         return data, stats
     if np.fmod(zero_sample, 1) != 0:
-        print('need to shift for mirroring')
-        return 0
+        print('need to shift for mirroring. Data not changed.')
+        return data, stats
 
     # estimate size of mirrored array
     acausal_samples = int(zero_sample + 1)
-- 
2.43.0


From 3aa65d49d97aebcd4f59ff9f7a1fa7c6306208d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:20 +0000
Subject: [PATCH 043/148] fix: one bin without given end averages everything

---
 src/seismic/monitor/post_corr_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 707ebcd..abf5495 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -272,7 +272,7 @@ def corr_mat_resample(
     else:
         if len(start_times) == 1:
             # there is only one start_time given and no end_time => average all
-            etime = np.array([stats['corr_end'][-1].timestamp])
+            etime = np.array([max(stats['corr_end']).timestamp])
         else:
             stime = np.array(stime)  # Cannot be a list for this operation
             etime = stime + (stime[1] - stime[0])
-- 
2.43.0


From 9c7745b6cddec75fe588195d77d684d63e755d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:20 +0000
Subject: [PATCH 044/148] fix: undefined correlations do not take part in the
 median

---
 src/seismic/monitor/post_corr_process.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index abf5495..eb9208c 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -761,7 +761,8 @@ def corr_mat_extract_trace(
     elif method == 'median':
         mm = np.ma.masked_array(
             ndata, np.isnan(ndata))
-        out = np.median(mm, 0).filled(np.nan)
+        # np.median does not regard the mask
+        out = np.ma.median(mm, 0).filled(np.nan)
     elif method == 'norm_mean':
         # normalize the matrix
         ndata = corr_mat_normalize(ndata, stats, normtype='absmax')
-- 
2.43.0


From b04ec4a79e3570260d2ca008879b4c03fe42e6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:20 +0000
Subject: [PATCH 045/148] fix: extract traces of periods without defined
 correlations

---
 src/seismic/monitor/post_corr_process.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index eb9208c..ea4cf14 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -784,6 +784,9 @@ def corr_mat_extract_trace(
         for ind in range(mm.shape[0]):
             cor[ind] = (
                 np.dot(ndata[ind, :], mean_tr) / np.sqrt(cm_sq[ind] * tm_sq))
+        if np.isnan(cor).all():
+            # only undefined correlations
+            return mean_tr
         # estimate the percentile excluding nans
         tres = np.percentile(cor[~np.isnan(cor)], percentile)
         # find the traces that agree with the requested percentile and calc
-- 
2.43.0


From 67e8c6c85dd6cdaf7be0bfe8c15fad184b9b6868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:20 +0000
Subject: [PATCH 046/148] fix: increments of reference traces given as array

---
 src/seismic/correlate/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index c3e5262..57e2c16 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -381,7 +381,7 @@ class CorrBulk(object):
         ..note:: the extracted traces will also be saved in self.ref_trc
         """
         ref_trcs = []
-        if isinstance(win_inc, list):
+        if isinstance(win_inc, (list, np.ndarray)):
             win_inc = np.array(win_inc)
         elif win_inc == 0:
             return self.extract_trace(method, percentile)
-- 
2.43.0


From 808e14effb248b14c15adaa53515b426b75455e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:37 +0000
Subject: [PATCH 047/148] fix: no mirroring of acausal correlations with
 round-off errors

---
 src/seismic/monitor/post_corr_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index ea4cf14..d596afc 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -474,7 +474,7 @@ def corr_mat_mirror(data: np.ndarray, stats: CorrStats) -> Tuple[
     if zero_sample <= 0:
         print('No data present for mirroring: starttime > zerotime.')
         return data, stats
-    if stats['end_lag'] <= 0:
+    if np.round(stats['end_lag']*stats['sampling_rate'], 6) <= 0:
         print('No data present for mirroring: endtime < zerotime.')
         return data, stats
     if np.fmod(zero_sample, 1) != 0:
-- 
2.43.0


From ed68f945a467707715dc0ab5fe45d2c07294c95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:31 +0000
Subject: [PATCH 048/148] fix: correct the decay with respect to zero lag

---
 src/seismic/monitor/post_corr_process.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index d596afc..ca4155c 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -342,8 +342,10 @@ def corr_mat_correct_decay(data: np.ndarray, stats: CorrStats) -> np.ndarray:
     env = np.nanmean(env, 0)  # Shouldn't that be a mean or divided by the dim?
     # env = np.nansum(env, 0)
 
-    # fit the decay
-    t = np.arange(stats_mirr['npts'])
+    # fit the decay, zero lag does not have to be the first sample
+    t = np.absolute(
+        np.arange(stats_mirr['npts'])
+        + stats_mirr['start_lag']*stats_mirr['sampling_rate'])
     le = np.log(env)
     K, log_A = np.polyfit(t, le, 1)
     A = np.exp(log_A)
-- 
2.43.0


From c3b8ca6347daa5ff33c63a5e9a762523f2c76574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 049/148] fix: stretch does not trim the header of the input

---
 src/seismic/monitor/post_corr_process.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index ca4155c..5325118 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -886,6 +886,9 @@ def corr_mat_stretch(
     """
 
     data = deepcopy(cdata)
+    # the traces are trimmed below, the header of the input is not
+    stats_in = stats
+    stats = deepcopy(stats)
 
     dta = -stats['start_lag']
     dte = stats['end_lag']
-- 
2.43.0


From cfb255500f9717dfa9b6badb32f29e22547ec5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 050/148] fix: first of several time windows

---
 src/seismic/monitor/stretch_mod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index f9e91a5..5549bf6 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -933,7 +933,7 @@ def multi_ref_vchange_and_align(
         print(
             "The multi-reference vchange evaluation cannot handle multiple "
             "time windows. Only the first time-window will be used")
-        tw = tw[0]
+        tw = tw[:1]
 
     multi_ref_panel = multi_ref_vchange(
         corr_data, ref_trs, tw=tw, stretch_range=stretch_range,
-- 
2.43.0


From 97c1695cdeb80ac2d26a24d13e728361ff5076bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 051/148] fix: time_stretch_apply does not taper its input

---
 src/seismic/monitor/stretch_mod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index 5549bf6..b210120 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -1200,7 +1200,7 @@ def time_stretch_apply(
     # taper and extend the reference trace to avoid interpolation
     # artefacts at the ends of the trace
     taper = cosine_taper(mat.shape[1], 0.05)
-    mat *= np.tile(taper, [mat.shape[0], 1])
+    mat = mat * np.tile(taper, [mat.shape[0], 1])
 
     # time axis
     if single_sided:
-- 
2.43.0


From b46d53e146c5064a0d47799730de0f6e0478b453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:05 +0000
Subject: [PATCH 052/148] fix: stretch the reference about its zero lag

---
 src/seismic/monitor/post_corr_process.py | 6 +++++-
 src/seismic/monitor/stretch_mod.py       | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 5325118..dcffb02 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -908,7 +908,11 @@ def corr_mat_stretch(
     if ref_trc is None:
         ref_trc = corr_mat_extract_trace(data, stats)
     if ref_tr_stats is None:
-        ref_tr_stats = stats
+        # references may be as long as the input or already be trimmed
+        if np.shape(ref_trc)[-1] == cdata.shape[-1]:
+            ref_tr_stats = stats_in
+        else:
+            ref_tr_stats = stats
 
     dv = multi_ref_vchange_and_align(
         data, ref_trc, tw=tw, stretch_range=stretch_range,
diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index b210120..7906aac 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -449,7 +449,11 @@ def time_stretch_estimate(
     time_facs = np.exp(-stretches)
 
     # time axis
-    if sides != 'single':
+    if ref_tr_trim is not None and ref_tr_stats['npts'] == len(ref_trc):
+        # zero lag can be anywhere in the reference
+        time_idx = np.arange(len(ref_trc)) + np.round(
+            ref_tr_stats['start_lag'] * ref_tr_stats['sampling_rate'], 6)
+    elif sides != 'single':
         time_idx = np.arange(len(ref_trc)) - (len(ref_trc) - 1.) / 2.
     else:
         time_idx = np.arange(len(ref_trc))
-- 
2.43.0


From 11679ed262233e51bb531ff309e7f492e28149aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 053/148] fix: results for a single correlation keep the time
 axis

---
 src/seismic/monitor/post_corr_process.py |  6 +++---
 src/seismic/monitor/stretch_mod.py       | 20 ++++++++++++--------
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index dcffb02..ef63897 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -1216,13 +1216,13 @@ def measure_shift(
     # assemble results
     dt = {
         'stats': stats,
-        'corr': np.squeeze(corr),
-        'value': np.squeeze(value),
+        'corr': corr,
+        'value': value,
         'second_axis': shifts,
         'value_type': np.array(['shift']),
         'method': np.array(['absolute_shift'])}
     if return_sim_mat:
-        dt.update({'sim_mat': np.squeeze(sim_mat)})
+        dt.update({'sim_mat': sim_mat})
     else:
         dt.update({'sim_mat': None})
     return DV(**dt)
diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index 7906aac..8467450 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -329,14 +329,18 @@ def velocity_change_estimate(
         # to one of the two stretch_range limits
         dt[ii, np.isnan(tmp_corr_vect)] = np.nan
 
-    dv = {'corr': np.squeeze(corr),
-          'value': np.squeeze(dt),
+    # a single time window has no axis, a single correlation does
+    if len(tw) == 1:
+        corr, dt, sim_mat = corr[0], dt[0], sim_mat[:, :, 0]
+
+    dv = {'corr': corr,
+          'value': dt,
           'second_axis': strvec,
           'value_type': 'stretch',
           'method': 'single_ref'}
 
     if return_sim_mat:
-        dv.update({'sim_mat': np.squeeze(sim_mat)})
+        dv.update({'sim_mat': sim_mat})
 
     return dv
 
@@ -803,7 +807,7 @@ def estimate_reftr_shifts_from_dt_corr(
         m = np.around(m / delta)  # , out=np.zeros_like(m, dtype='int32'))
         m = np.require(m, dtype='int32')
 
-        row, col = np.squeeze(multi_ref_panel['reftr_0']['sim_mat']).shape
+        row, col = multi_ref_panel['reftr_0']['sim_mat'].shape
 
         stmp = np.zeros((row, col, n_ref))
 
@@ -811,7 +815,7 @@ def estimate_reftr_shifts_from_dt_corr(
         for (i, reftr) in enumerate(np.sort(list(multi_ref_panel.keys()))):
 
             stmp[:, :, i] = \
-                np.roll(np.squeeze(multi_ref_panel[reftr]['sim_mat']),
+                np.roll(multi_ref_panel[reftr]['sim_mat'],
                         m[i],
                         axis=1)
 
@@ -1095,14 +1099,14 @@ def time_shift_estimate(
         sim_mat = dtdict['sim_mat']
 
     # create the result dictionary
-    dt = {'corr': np.squeeze(corr),
-          'value': np.squeeze(shift),
+    dt = {'corr': corr,
+          'value': shift,
           'second_axis': shifts,
           'value_type': np.array(['shift']),
           'method': np.array(['time_shift'])}
 
     if return_sim_mat:
-        dt.update({'sim_mat': np.squeeze(sim_mat)})
+        dt.update({'sim_mat': sim_mat})
 
     return dt
 
-- 
2.43.0


From 30a44fe469cebbefac3519a4c578e59c4073c8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 054/148] fix: time windows that end with the trace despite
 round-off errors

---
 src/seismic/monitor/post_corr_process.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index ef63897..9d82be3 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -1171,10 +1171,14 @@ def measure_shift(
         twmin = -twmax
     else:
         twmin = np.min(np.array(tw)[:]) - shift_range
-    assert twmax <= stats.end_lag, "Time window ends later than the trace. " \
+    # limits that only differ by round-off errors are inside of the trace
+    eps = 1e-6/stats.sampling_rate
+    assert twmax <= stats.end_lag + eps, \
+        "Time window ends later than the trace. " \
         f"Latest time window + shift_range ends at {twmax}s " \
         f"while trace end at {stats.end_lag}s."
-    assert twmin >= stats.start_lag, f"Time window starts earlier than the " \
+    assert twmin >= stats.start_lag - eps, \
+        f"Time window starts earlier than the " \
         f"trace. Earliest time window - shift_range starts at {twmin}s " \
         f"while trace starts at {stats.start_lag}s."
     data, stats = corr_mat_trim(data, stats, twmin, twmax)
-- 
2.43.0


From 44d7300dbb08ac03843024fd5709d0f5e88de000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 055/148] fix: similarities are not rolled over the ends of the
 grid

---
 src/seismic/monitor/stretch_mod.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index 8467450..2823ec3 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -818,6 +818,11 @@ def estimate_reftr_shifts_from_dt_corr(
                 np.roll(multi_ref_panel[reftr]['sim_mat'],
                         m[i],
                         axis=1)
+            # what is rolled over the ends belongs to other values
+            if m[i] > 0:
+                stmp[:, :m[i], i] = np.nan
+            elif m[i] < 0:
+                stmp[:, m[i]:, i] = np.nan
 
         # Create a msked array to evaluate the mean
         stmp_masked = np.ma.masked_array(
-- 
2.43.0


From 11b8728632aad65734dc49e5b38719581d064f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:40 +0000
Subject: [PATCH 056/148] fix: undefined times of several references have no
 value

---
 src/seismic/monitor/stretch_mod.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index 2823ec3..399f855 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -848,10 +848,8 @@ def estimate_reftr_shifts_from_dt_corr(
         except Exception:
             pass
 
-        try:
-            dt = dt.filled(np.nan).astype('int')
-        except Exception:
-            pass
+        # no similarity, no value
+        dt[np.isnan(corr)] = np.nan
 
         ret_dict = {'corr': corr,
                     'value': dt,
-- 
2.43.0


From 6f4a6479318e42b07ca69577df383552c444ccf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 057/148] fix: find_clock_shift does not trim the header of the
 input

---
 src/seismic/monitor/post_corr_process.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 9d82be3..a613121 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -995,6 +995,8 @@ def corr_mat_shift(
     """
 
     data = deepcopy(data)
+    # the traces are trimmed below, the header of the input is not
+    stats = deepcopy(stats)
 
     dta = -stats.start_lag
     dte = stats.end_lag
-- 
2.43.0


From 09a30b39aa3dfb6fe838549bf730ae4262636c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 058/148] fix: average the components of one station
 combination only

The prefix pattern also matched stations with longer codes, directories
that contain 'av' were skipped, and paths with brackets never ended.
---
 src/seismic/monitor/monitor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index f7cdf73..862e441 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -398,8 +398,8 @@ class Monitor(object):
             ch = 'av'
         while len(infiles):
             # Find files belonging to same station
-            pat = '.'.join(infiles[0].split('.')[:-2]) + '*'
-            filtfil = fnmatch.filter(infiles, pat)
+            pat = infiles[0].split('.')[:-2]
+            filtfil = [f for f in infiles if f.split('.')[:-2] == pat]
             fffil = []  # Second filter
             for f in filtfil:
                 if ch in f.split('.'):
@@ -416,7 +416,7 @@ class Monitor(object):
                     fffil.clear()
                     self.logger.debug('Skipping already averaged dv...%s' % f)
                     break
-                elif 'av' in f:
+                elif f.split('.')[-2].startswith('av'):
                     # computed by another averaging method
                     infiles.remove(f)
                     continue
-- 
2.43.0


From 641b9bb05c2e581f4c02ef79ad9e1b7c3fe4f942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 059/148] fix: averages of velocity changes use the defined
 similarities only

The value is the one at the maximum similarity even if that is negative
and if some similarities are undefined, results with other time axes are
not mixed, averages are recognised by their exact code, and the first
result does not determine shape and header if it is skipped.
---
 src/seismic/monitor/monitor.py | 88 ++++++++++++++++++++++++----------
 1 file changed, 63 insertions(+), 25 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 862e441..31fb304 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -936,6 +936,41 @@ def correct_time_shift_several(dvs: List[DV], method: str, n_overlap: int):
                     f'{dv_r.stats.id}.')
 
 
+def _is_averaged(dv: DV) -> bool:
+    """
+    Whether the DV object already is an average of several others.
+    """
+    return any(
+        code in ('av', 'geoav') for code in (
+            dv.stats.channel, dv.stats.network, dv.stats.station))
+
+
+def _same_axes(dv0: DV, dv1: DV) -> bool:
+    """
+    Whether the similarity matrices of two DV objects are defined at the same
+    times and at the same values.
+    """
+    return (
+        dv0.sim_mat.shape == dv1.sim_mat.shape
+        and not any(dv0.second_axis != dv1.second_axis)
+        and list(np.ravel(dv0.stats.corr_start)) == list(
+            np.ravel(dv1.stats.corr_start)))
+
+
+def _best_estimate(
+    sim_mat: np.ndarray, second_axis: np.ndarray) -> Tuple[
+        np.ndarray, np.ndarray]:
+    """
+    The maximum of each row of the similarity matrix and the value that
+    it corresponds to. NaN where the row does not hold any data.
+    """
+    corr = np.nanmax(sim_mat, axis=1)
+    iimax = np.argmax(np.where(np.isnan(sim_mat), -np.inf, sim_mat), axis=1)
+    value = second_axis[iimax].astype(float)
+    value[np.isnan(corr)] = np.nan
+    return corr, value
+
+
 def average_components_mem_save(
         dvs: Generator[DV, None, None], save_scatter: bool = True) -> DV:
     """
@@ -959,23 +994,28 @@ def average_components_mem_save(
     statsl = []
     corrs = []
     stretches = []
-    for ii, dv in enumerate(dvs):
-        if ii == 0:
+    dv0 = None
+    method = None
+    for dv in dvs:
+        if method is None:
+            method = dv.method
+        if dv.method != method:
+            raise TypeError('DV has to be computed with the same method.')
+        if _is_averaged(dv):
+            warnings.warn('Averaging of averaged dvs not allowed. Skipping dv')
+            continue
+        if dv0 is None:
+            dv0 = dv
             sim_mat_sum = np.zeros_like(dv.sim_mat)
+            # Number of values in each element of the similarity matrix
+            n_sim = np.zeros_like(dv.sim_mat)
             n_stat = np.zeros_like(dv.corr)
 
             stats = deepcopy(dv.stats)
             strvec = dv.second_axis
             value_type = dv.value_type
-            method = dv.method
             dv_processing = dv.dv_processing
-        if dv.method != method:
-            raise TypeError('DV has to be computed with the same method.')
-        if 'av' in dv.stats.channel+dv.stats.network+dv.stats.station:
-            warnings.warn('Averaging of averaged dvs not allowed. Skipping dv')
-            continue
-        if dv.sim_mat.shape != sim_mat_sum.shape or any(
-                dv.second_axis != strvec):
+        if not _same_axes(dv, dv0):
             warnings.warn(
                 'The shapes of the similarity matrices of the input DVs '
                 + 'vary. Make sure to compute the dvs with the same parameters'
@@ -984,19 +1024,19 @@ def average_components_mem_save(
             )
             continue
         sim_mat_sum += np.nan_to_num(dv.sim_mat)
+        n_sim += ~np.isnan(dv.sim_mat)
         n_stat[~np.isnan(dv.value)] += 1
         if save_scatter:
             corrs.append(dv.corr)
             stretches.append(dv.value)
         statsl.append(dv.stats)
-    # Now inf where it was nan before
-    av_sim_mat = (sim_mat_sum.T/n_stat).T
-    av_sim_mat[np.isinf(av_sim_mat)] = np.nan
+    if dv0 is None:
+        raise ValueError('There are no DVs to average.')
+    # nan where there is no data
+    av_sim_mat = np.where(
+        n_sim > 0, sim_mat_sum/np.maximum(n_sim, 1), np.nan)
     # Now we would have to recompute the dv value and corr value
-    iimax = np.nanargmax(np.nan_to_num(av_sim_mat), axis=1)
-    corr = np.nanmax(av_sim_mat, axis=1)
-    dt = strvec[iimax]
-    dt[np.isnan(corr)] = np.nan
+    corr, dt = _best_estimate(av_sim_mat, strvec)
     if save_scatter:
         # use sum of square for std
         corrs = np.array(corrs)
@@ -1049,11 +1089,10 @@ def average_components(
     for dv in dvs:
         if dv.method != dvs[0].method:
             raise TypeError('DV has to be computed with the same method.')
-        if 'av' in dv.stats.channel+dv.stats.network+dv.stats.station:
+        if _is_averaged(dv):
             warnings.warn('Averaging of averaged dvs not allowed. Skipping dv')
             continue
-        if dv.sim_mat.shape != dvs[0].sim_mat.shape or any(
-                dv.second_axis != dvs[0].second_axis):
+        if len(dv_use) and not _same_axes(dv, dv_use[0]):
             warnings.warn(
                 'The shapes of the similarity matrices of the input DVs '
                 + 'vary. Make sure to compute the dvs with the same parameters'
@@ -1062,6 +1101,8 @@ def average_components(
             )
             continue
         dv_use.append(dv)
+    if not len(dv_use):
+        raise ValueError('There are no DVs to average.')
     # Correct shift
     if correct_shift:
         correct_time_shift_several(
@@ -1069,11 +1110,8 @@ def average_components(
             n_overlap=correct_shift_overlap)
     av_sim_mat = np.nanmean([dv.sim_mat for dv in dv_use], axis=0)
     # Now we would have to recompute the dv value and corr value
-    iimax = np.nanargmax(np.nan_to_num(av_sim_mat), axis=1)
-    corr = np.nanmax(av_sim_mat, axis=1)
     strvec = dv_use[0].second_axis
-    dt = strvec[iimax]
-    dt[np.isnan(corr)] = np.nan
+    corr, dt = _best_estimate(av_sim_mat, strvec)
     if save_scatter:
         stretches = np.array([dv.value for dv in dv_use])
         corrs = np.array([dv.corr for dv in dv_use])
@@ -1130,7 +1168,7 @@ def average_dvs_by_coords(
     dv_filt = []
     for dv in dvs:
         s = dv.stats
-        if s.channel == 'av':
+        if _is_averaged(dv):
             warnings.warn('Averaging of averaged dvs not allowed. Skipping dv')
             continue
         if all((
-- 
2.43.0


From 38ad8191154f976ddb3cc1a30170cd1cb5bfc9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:59 +0000
Subject: [PATCH 060/148] fix: shift of velocity changes from all points in
 common

---
 src/seismic/monitor/monitor.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 31fb304..165996d 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -865,8 +865,8 @@ def correct_dv_shift(
             'n_overlap, i.e., '
             f'{n_overlap*(dv0.stats.starttime[1]-dv0.stats.starttime[0])/3600}'
             'hours. The result would not make sense.')
-    if stop >= len(dv0.value):
-        stop = len(dv0.value) - 1
+    # the last point is included
+    stop = min(stop + 1, len(dv0.value))
     if start < 0:
         start = 0
     dv0c = dv0.corr[start:stop]
@@ -884,7 +884,9 @@ def correct_dv_shift(
     roll = int(round(-shift/(dv0.second_axis[1]-dv0.second_axis[0])))
     dv0.sim_mat = np.roll(dv0.sim_mat, (roll, 0))
     dv0.value = dv0.second_axis[
-        np.nanargmax(np.nan_to_num(dv0.sim_mat), axis=1)]
+        np.nanargmax(np.nan_to_num(dv0.sim_mat), axis=1)].astype(float)
+    # There are still no values where there was no data
+    dv0.value[~dv0.avail] = np.nan
     return dv0, dv1
 
 
-- 
2.43.0


From 4487c9eccccaa7e588ebbe20d7723a966be10d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:59 +0000
Subject: [PATCH 061/148] fix: values after smoothing the similarity matrix

Times without any similarity have no value, and the value belongs to the
maximum similarity even if that is negative.
---
 src/seismic/monitor/dv.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/dv.py b/src/seismic/monitor/dv.py
index 72dd140..8fc57c6 100644
--- a/src/seismic/monitor/dv.py
+++ b/src/seismic/monitor/dv.py
@@ -217,8 +217,12 @@ class DV(object):
 
         # Compute the dependencies again
         self.corr = np.nanmax(self.sim_mat, axis=1)
-        self.value = self.second_axis[
-            np.argmax(np.nan_to_num(self.sim_mat), axis=1)]
+        self.avail = ~np.isnan(self.corr)
+        self.value = self.second_axis[np.argmax(
+            np.where(np.isnan(self.sim_mat), -np.inf, self.sim_mat),
+            axis=1)].astype(float)
+        # There is no value if none of the similarities is defined
+        self.value[~self.avail] = np.nan
         return self
 
 
-- 
2.43.0


From d6eb0f30925a469c7b71027ee00ab2859f9b724d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 062/148] fix: scatter of averaged velocity changes is not read
 into the header

---
 src/seismic/utils/miic_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/utils/miic_utils.py b/src/seismic/utils/miic_utils.py
index 5815bdd..70811e4 100644
--- a/src/seismic/utils/miic_utils.py
+++ b/src/seismic/utils/miic_utils.py
@@ -245,7 +245,8 @@ no_stats = [
     'data', 'tw_len', 'tw_start', 'freq_min', 'freq_max', 'aligned', 'subdir',
     'plot_vel_change', 'start_date', 'end_date', 'win_len', 'date_inc',
     'sides', 'compute_tt', 'rayleigh_wave_velocity', 'stretch_range',
-    'stretch_steps', 'dt_ref', 'preprocessing', 'postprocessing']
+    'stretch_steps', 'dt_ref', 'preprocessing', 'postprocessing',
+    'stretches', 'corrs', 'n_stat']
 
 
 def save_header_to_np_array(stats: Stats) -> dict:
-- 
2.43.0


From 31e5544b385f134b7a7b98e184a9c9bd1719bcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 063/148] fix: velocity changes at a single time keep their
 time axis

---
 src/seismic/monitor/dv.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/dv.py b/src/seismic/monitor/dv.py
index 8fc57c6..a62143c 100644
--- a/src/seismic/monitor/dv.py
+++ b/src/seismic/monitor/dv.py
@@ -19,6 +19,7 @@ from zipfile import BadZipFile
 
 import matplotlib.pyplot as plt
 import numpy as np
+from obspy import UTCDateTime
 
 from seismic.plot.plot_dv import plot_dv
 from seismic.utils import miic_utils as mu
@@ -247,7 +248,12 @@ def read_dv(path: str) -> DV:
                 f'No files that adhere the pattern {path} found.')
         return dvl
     loaded = np.load(path)
-    stats = CorrStats(mu.load_header_from_np_array(loaded))
+    header = mu.load_header_from_np_array(loaded)
+    for k in ('corr_start', 'corr_end'):
+        # One time per value, also if there is only one
+        if isinstance(header.get(k), UTCDateTime):
+            header[k] = [header[k]]
+    stats = CorrStats(header)
     # to check that compatibility works
     vt = loaded['vt_array']
     while not isinstance(vt, str):
-- 
2.43.0


From 5fa1876754d70ab99c74f46b9a35478222e6ac0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:36 +0000
Subject: [PATCH 064/148] fix: processing information of velocity changes

It is not shared between objects, can be saved if it is incomplete, and is
read with the original types, so that objects read from files can be
aligned.
---
 src/seismic/monitor/dv.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/seismic/monitor/dv.py b/src/seismic/monitor/dv.py
index a62143c..0d2d3f2 100644
--- a/src/seismic/monitor/dv.py
+++ b/src/seismic/monitor/dv.py
@@ -11,6 +11,7 @@ Created: Tuesday, 15th June 2021 04:12:18 pm
 Last Modified: Tuesday, 5th March 2024 01:59:30 pm
 '''
 
+from copy import deepcopy
 from datetime import datetime
 from glob import glob
 from typing import List, Tuple, Optional
@@ -78,7 +79,8 @@ class DV(object):
         self.second_axis = second_axis
         self.method = method
         self.stats = stats
-        self.dv_processing = dv_processing
+        # Each object may be modified (e.g., aligned) independently
+        self.dv_processing = deepcopy(dv_processing)
         # Available indices
         self.avail = ~np.isnan(self.corr)
 
@@ -109,10 +111,10 @@ class DV(object):
         kwargs = mu.save_header_to_np_array(self.stats)
         if self.dv_processing is not None and len(self.dv_processing):
             kwargs.update({
-                'freq_min': self.dv_processing['freq_min'],
-                'freq_max': self.dv_processing['freq_max'],
-                'tw_len': self.dv_processing['tw_len'],
-                'tw_start': self.dv_processing['tw_start'],
+                k: self.dv_processing[k] for k in (
+                    'freq_min', 'freq_max', 'tw_len', 'tw_start')
+                if k in self.dv_processing})
+            kwargs.update({
                 'sides': self.dv_processing.get('sides', 'unknown'),
                 'aligned': self.dv_processing.get('aligned', False)
             })
@@ -261,16 +263,14 @@ def read_dv(path: str) -> DV:
     method = loaded['method_array']
     while not isinstance(method, str):
         method = method[0]
-    try:
-        dv_processing = dict(
-            freq_min=float(loaded['freq_min']),
-            freq_max=float(loaded['freq_max']),
-            tw_start=float(loaded['tw_start']),
-            tw_len=float(loaded['tw_len']))
-        dv_processing['sides'] = loaded.get('sides', 'unknown')
-        dv_processing['aligned'] = loaded.get('aligned', False)
-    except KeyError:
-        dv_processing = {}
+    dv_processing = {
+        k: float(loaded[k]) for k in (
+            'freq_min', 'freq_max', 'tw_start', 'tw_len') if k in loaded}
+    if len(dv_processing) or 'aligned' in loaded:
+        for k, default in (('sides', 'unknown'), ('aligned', False)):
+            v = loaded.get(k, default)
+            # numpy returns arrays without dimension
+            dv_processing[k] = v.tolist() if isinstance(v, np.ndarray) else v
     return DV(
         loaded['corr'], loaded['value'], vt, loaded['sim_mat'],
         loaded['second_axis'], method, stats=stats,
-- 
2.43.0


From 65fbb204a47dcf6631d971d251df070607a8acf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 065/148] fix: stations of different networks are no
 autocorrelations

---
 src/seismic/monitor/monitor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 165996d..e55b787 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -421,7 +421,10 @@ class Monitor(object):
                     infiles.remove(f)
                     continue
                 components = f.split('.')[-2].split('-')
-                stations = f.split('.')[-3].split('-')
+                # The same station code can exist in several networks
+                stations = list(zip(
+                    f.split('.')[-4].split('-')[-2:],
+                    f.split('.')[-3].split('-')))
                 if method.lower() == 'autocomponents':
                     # Remove those from combined channels
                     if components[0] != components[1] \
-- 
2.43.0


From 28a81138263b045e22768061fb9638915a8e6a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:53 +0000
Subject: [PATCH 066/148] fix: averages are recognised by the name of the file
 only

---
 src/seismic/monitor/monitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index e55b787..9d01980 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -402,7 +402,7 @@ class Monitor(object):
             filtfil = [f for f in infiles if f.split('.')[:-2] == pat]
             fffil = []  # Second filter
             for f in filtfil:
-                if ch in f.split('.'):
+                if ch == f.split('.')[-2]:
                     # Is already computed for this station
                     # So let's remove all of them from the initial list
                     for ff in filtfil:
-- 
2.43.0


From 87be05ad7e95119d283930fb36421ddf7d4e0c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 067/148] fix: pairs of two different stations of a list are
 monitored

---
 src/seismic/monitor/monitor.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 9d01980..d452288 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -770,7 +770,6 @@ def corr_find_filter(
     statlist = []
     infiles = []
     for f in glob(os.path.join(indir, '*-*.*-*.h5')):
-        matched = False
         f = os.path.basename(f)
         split = f.split('.')
 
@@ -782,22 +781,16 @@ def corr_find_filter(
             continue
         elif isinstance(net['network'], list):
             # account for the case of wildcards in the network list
-            for n in net['network']:
-                if fnmatch.filter(nsplit, n) == nsplit:
-                    matched = True
-                    break
-            if not matched:
+            if not all(any(fnmatch.fnmatch(code, n) for n in net['network'])
+                       for code in nsplit):
                 continue
         if isinstance(net['station'], str) and not fnmatch.filter(
                 ssplit, net['station']) == ssplit:
             continue
         elif isinstance(net['station'], list):
             # account for the case of wildcards in the station list
-            for s in net['station']:
-                if fnmatch.filter(ssplit, s) == ssplit:
-                    matched = True
-                    break
-            if not matched:
+            if not all(any(fnmatch.fnmatch(code, s) for s in net['station'])
+                       for code in ssplit):
                 continue
 
         netlist.append(split[0])
-- 
2.43.0


From 0d36cd4d917ebc6fb5954e5cee27fd5ba13130e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 068/148] fix: monitoring with the whole coda as time window

Also report windows that are too long if there is no distance.
---
 src/seismic/monitor/monitor.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index d452288..62dd768 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -214,16 +214,15 @@ class Monitor(object):
                 self.logger.info(
                     f'Computed travel time for {network}.{station} is '
                     f'{tt} s. The assumed direct-line distance was {d} km.')
-        if lts < tw_start + self.options['dv']['tw_len']:
-            reqtw = tw_start + self.options[
-                'dv']['tw_len']
+        # No tw_len means to use the rest of the coda
+        reqtw = tw_start + (self.options['dv']['tw_len'] or 0)
+        if lts < reqtw:
             raise ValueError(
                 'Requested lapse time window (time window start + time window'
                 f' length = {reqtw} contains segments after the Correlation'
                 'Function.'
                 ' When computing the correlations make sure to set an '
                 f'appropriate value for lengthToSave. The value was {lts}.'
-                f' The direct-line distance between the stations is {d} km.'
             )
 
         if 'preprocessing' in self.options['dv']:
-- 
2.43.0


From 25fa4bddd8b2ac686d18452d871d2e38d25b9da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:38 +0000
Subject: [PATCH 069/148] fix: lapse time windows start at the nearest sample

Round-off errors moved them by one sample on the acausal side.
---
 src/seismic/monitor/monitor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 62dd768..4ea42ab 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -277,8 +277,8 @@ class Monitor(object):
 
         # Compute time window
         tw = [np.arange(
-            tw_start*cbt.stats['sampling_rate'],
-            trim1*cbt.stats['sampling_rate'], 1)]
+            round(tw_start*cbt.stats['sampling_rate']),
+            round(trim1*cbt.stats['sampling_rate']), 1)]
         # 2023/09/29
         # sim_mat is not required in this operation
         dv = cbt.stretch(
@@ -686,8 +686,8 @@ class Monitor(object):
 
                     # Compute time window
                     tw = [np.arange(
-                        tw_start*cbt.stats['sampling_rate'],
-                        (tw_start+tw_len)*cbt.stats['sampling_rate'], 1)]
+                        round(tw_start*cbt.stats['sampling_rate']),
+                        round((tw_start+tw_len)*cbt.stats['sampling_rate']))]
                     wfc = cbt.wfc(
                         tr, tw, 'both', tw_start, tw_len, fmin, fmax)
                     self.logger.debug(
-- 
2.43.0


From a045718d0dee3b8e722ef23fe06c26eb24f0ec70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:14 +0000
Subject: [PATCH 070/148] fix: defective correlation files do not stop the
 monitoring

Files that cannot be opened and errors while computing the waveform
coherence of one combination stopped all others.
---
 src/seismic/monitor/monitor.py | 44 +++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 4ea42ab..5403bf0 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -159,6 +159,26 @@ class Monitor(object):
                     netlist, statlist)]))
         return netlist, statlist, infiles
 
+    def _find_combinations(self, tag: str) -> List[List[str]]:
+        """
+        All channel combinations in the available files. Files that cannot be
+        read are skipped.
+
+        :param tag: Tag of the data in the files.
+        :type tag: str
+        :return: List of file, network, station, and channel combination
+        :rtype: List[List[str]]
+        """
+        plist = []
+        for f, n, s in zip(self.infiles, self.netlist, self.statlist):
+            try:
+                with CorrelationDataBase(f, mode='r') as cdb:
+                    ch = cdb.get_available_channels(tag, n, s)
+                    plist.extend([f, n, s, c] for c in ch)
+            except Exception as e:
+                self.logger.exception(f'{e} for file {f}.')
+        return plist
+
     def compute_velocity_change(
         self, corr_file: str, tag: str, network: str, station: str,
             channel: str, ref_trcs: np.ndarray = None):
@@ -337,12 +357,7 @@ class Monitor(object):
         tag = 'subdivision'
         # get number of available channel combis
         if self.rank == 0:
-            plist = []
-            for f, n, s in zip(self.infiles, self.netlist, self.statlist):
-                with CorrelationDataBase(f, mode='r') as cdb:
-                    ch = cdb.get_available_channels(
-                        tag, n, s)
-                    plist.extend([f, n, s, c] for c in ch)
+            plist = self._find_combinations(tag)
         else:
             plist = None
         plist = self.comm.bcast(plist, root=0)
@@ -495,12 +510,7 @@ class Monitor(object):
         tag = 'subdivision'
         # get number of available channel combis
         if self.rank == 0:
-            plist = []
-            for f, n, s in zip(self.infiles, self.netlist, self.statlist):
-                with CorrelationDataBase(f, mode='r') as cdb:
-                    ch = cdb.get_available_channels(
-                        tag, n, s)
-                    plist.extend([f, n, s, c] for c in ch)
+            plist = self._find_combinations(tag)
         else:
             plist = None
         plist = self.comm.bcast(plist, root=0)
@@ -513,12 +523,12 @@ class Monitor(object):
         wfcl = []
         for ii in tqdm(ind):
             corr_file, net, stat, cha = plist[ii]
-            for wfc in self.compute_waveform_coherence(
-                    corr_file, tag, net, stat, cha):
-                try:
+            try:
+                for wfc in self.compute_waveform_coherence(
+                        corr_file, tag, net, stat, cha):
                     wfcl.append(wfc)
-                except Exception as e:
-                    self.logger.exception(e)
+            except Exception as e:
+                self.logger.exception(f'{e} for file {corr_file}.')
 
         outdir = os.path.join(
             self.options['proj_dir'], self.options['wfc']['subdir'])
-- 
2.43.0


From 21824bd6bfcc852a99409972f9e47e72d0f4b6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:14 +0000
Subject: [PATCH 071/148] fix: computing the waveform coherence does not change
 the options

---
 src/seismic/monitor/monitor.py | 43 ++++++++++++++--------------------
 1 file changed, 17 insertions(+), 26 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 5403bf0..957b176 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -630,36 +630,30 @@ class Monitor(object):
         cb.resample(starttimes, endtimes)
 
         # Allow lists so the computation does not have to be started x times
-        if not isinstance(self.options['wfc']['freq_min'], list):
-            self.options['wfc']['freq_min'] = [
-                self.options['wfc']['freq_min']]
-        if not isinstance(self.options['wfc']['freq_max'], list):
-            self.options['wfc']['freq_max'] = [
-                self.options['wfc']['freq_max']]
-        if len(self.options['wfc']['freq_min']) != len(
-                self.options['wfc']['freq_max']):
+        # The options of the user do not change
+        freq_min, freq_max, tw_starts, tw_lens = (
+            self.options['wfc'][k] for k in (
+                'freq_min', 'freq_max', 'tw_start', 'tw_len'))
+        if not isinstance(freq_min, list):
+            freq_min = [freq_min]
+        if not isinstance(freq_max, list):
+            freq_max = [freq_max]
+        if len(freq_min) != len(freq_max):
             raise ValueError(
                 'freq_min and freq_max must be of same length.')
 
-        if not isinstance(self.options['wfc']['tw_start'], list):
-            self.options['wfc']['tw_start'] = [
-                self.options['wfc']['tw_start']]
-        if isinstance(self.options['wfc']['tw_len'], list) and len(
-                self.options['wfc']['tw_len']) != len(
-                self.options['wfc']['tw_start']):
+        if not isinstance(tw_starts, list):
+            tw_starts = [tw_starts]
+        if not isinstance(tw_lens, list):
+            tw_lens = [tw_lens] * len(tw_starts)
+        elif len(tw_lens) != len(tw_starts):
             raise ValueError(
                 'tw_start and tw_len must be of same length or tw_len must be'
                 ' a single value.')
-        elif not isinstance(self.options['wfc']['tw_len'], list):
-            self.options['wfc']['tw_len'] = [
-                self.options['wfc']['tw_len']] * len(
-                self.options['wfc']['tw_start'])
 
         cb_bac = cb.copy()
 
-        for fmin, fmax in zip(
-                self.options['wfc']['freq_min'],
-                self.options['wfc']['freq_max']):
+        for fmin, fmax in zip(freq_min, freq_max):
             if fmin >= fmax:
                 raise ValueError('freq_min must be smaller than freq_max.')
             cb.filter((fmin, fmax))
@@ -674,13 +668,10 @@ class Monitor(object):
 
             self.logger.debug(
                 f'Preprocessing finished. Computing wfc for fmin: {fmin} '
-                f'and fmax: {fmax} {len(self.options["wfc"]["tw_start"])}'
-                f'time windows.')
+                f'and fmax: {fmax} {len(tw_starts)} time windows.')
 
             # Now, we loop over the time windows
-            for tw_start, tw_len in zip(
-                self.options['wfc']['tw_start'],
-                    self.options['wfc']['tw_len']):
+            for tw_start, tw_len in zip(tw_starts, tw_lens):
                 try:
                     # Now, we make a copy of the cm to be trimmed
                     cbt = cb.copy().trim(
-- 
2.43.0


From 0f5a5a2a8cb492caa9419fc867f46f479ca7ac62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:14 +0000
Subject: [PATCH 072/148] fix: each average of waveform coherences is written
 by one process

All processes wrote the same files at the same time. The first to save a
result creates the directory.
---
 src/seismic/monitor/monitor.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 957b176..e770261 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -560,6 +560,11 @@ class Monitor(object):
                         wfc.wfc_processing['tw_start'] == tw_start,
                         wfc.wfc_processing['tw_len'] == tw_len
                     ])])
+        if self.rank == 0:
+            os.makedirs(outdir, exist_ok=True)
+        else:
+            # All processes hold the same, one of them writes it
+            wfcl_sub = []
         for wfc_avl in wfcl_sub:
             wfc = average_components_wfc(wfc_avl)
             # Write files
@@ -615,8 +620,7 @@ class Monitor(object):
         cb = cst.create_corr_bulk(inplace=True)
         outdir = os.path.join(
             self.options['proj_dir'], self.options['wfc']['subdir'])
-        if self.rank == 0:
-            os.makedirs(outdir, exist_ok=True)
+        os.makedirs(outdir, exist_ok=True)
 
         # for possible rest bits
         del cst
-- 
2.43.0


From 73a618857ffaddca9b361ab23b326c9ec58de717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 073/148] fix: waveform coherences do not share the header of
 the correlations

---
 src/seismic/correlate/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 57e2c16..081a2df 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -800,7 +800,7 @@ class CorrBulk(object):
             'freq_min': freq_min,
             'freq_max': freq_max
         }
-        wfc = WFC(wfc_dict, self.stats, wfc_processing)
+        wfc = WFC(wfc_dict, deepcopy(self.stats), wfc_processing)
         return wfc
 
     def _find_slice_index(
-- 
2.43.0


From 75844380b9399ec6ed95f45ae14582c5f4c860c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 074/148] fix: coherence windows of correlations with
 asymmetric lag times

---
 src/seismic/correlate/stream.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 081a2df..8fd4327 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -792,8 +792,22 @@ class CorrBulk(object):
             trace. The keys are using the syntax `reftr_%n`.
         :rtype: dict
         """
-        wfc_dict = wfc_multi_reftr(
-            self.data, ref_trc, time_window, sides, remove_nans)
+        zero = round(-self.stats.start_lag*self.stats.sampling_rate)
+        if zero != (self.stats.npts - 1)//2 and (
+                sides in ('left', 'right') or (sides == 'both' and zero > 0)):
+            # Zero lag time is not in the centre
+            if sides == 'both':
+                time_window = [np.unique(np.hstack(
+                    (zero - tw, zero + tw))) for tw in time_window]
+            elif sides == 'left':
+                time_window = [zero - tw for tw in time_window]
+            else:
+                time_window = [zero + tw for tw in time_window]
+            wfc_dict = wfc_multi_reftr(
+                self.data, ref_trc, time_window, 'single', remove_nans)
+        else:
+            wfc_dict = wfc_multi_reftr(
+                self.data, ref_trc, time_window, sides, remove_nans)
         wfc_processing = {
             'tw_start': tw_start,
             'tw_len': tw_len,
-- 
2.43.0


From af341c2cea5bb96f18b24cb30bbc7e4d52b5fc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 075/148] fix: coherence windows that exceed the acausal side
 are an error

They took samples from the end of the causal side.
---
 src/seismic/monitor/stretch_mod.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index 399f855..fa4d189 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -122,6 +122,9 @@ def compute_wfc(
             raise ValueError(
                 'sides = %s not a valid option.' % sides)
 
+        if np.min(ctw) < 0:
+            raise IndexError('The time window exceeds the correlations.')
+
         mask = np.zeros((mat.shape[1],))
         mask[ctw] = 1
 
-- 
2.43.0


From ed65041016a5b7a3558443966ad0cef7e9f77458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 076/148] fix: waveform coherences read from files

The types of the processing information are the original ones, the time
axis of a single correlation is kept, and ? is a wildcard as well.
---
 src/seismic/monitor/wfc.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/seismic/monitor/wfc.py b/src/seismic/monitor/wfc.py
index 9447c13..1b5ec38 100644
--- a/src/seismic/monitor/wfc.py
+++ b/src/seismic/monitor/wfc.py
@@ -15,6 +15,7 @@ from typing import List
 
 import numpy as np
 from matplotlib import pyplot as plt
+from obspy import UTCDateTime
 
 from seismic.correlate.stats import CorrStats
 from seismic.utils import miic_utils as mu
@@ -141,7 +142,7 @@ def read_wfc(path: str) -> WFC:
     :return: The WFC object.
     :rtype: WFC
     """
-    if '*' in path:
+    if '*' in path or '?' in path:
         return [read_wfc(f) for f in glob.glob(path, recursive=True)]
     loaded = np.load(path)
     d = {}
@@ -149,22 +150,23 @@ def read_wfc(path: str) -> WFC:
     stats = {}
     for k, v in loaded.items():
         if k[-3:] == '_av':
-            av[k] = v
+            av[k] = v[()]
         elif k == 'mean':
-            mean = v
+            mean = v if v.ndim else v[()]
         elif 'reftr' in k:
             d[k] = v
         else:
             stats[k] = v
+    # numpy returns arrays without dimension
     wfc_processing = {
-        'tw_start': stats['tw_start'],
-        'tw_len': stats['tw_len'],
-        'freq_min': stats['freq_min'],
-        'freq_max': stats['freq_max']
-    }
-    wfc = WFC(
-        d, stats=CorrStats(mu.load_header_from_np_array(stats)),
-        wfc_processing=wfc_processing)
+        k: stats[k].item() for k in (
+            'tw_start', 'tw_len', 'freq_min', 'freq_max')}
+    header = mu.load_header_from_np_array(stats)
+    for k in ('corr_start', 'corr_end'):
+        # One time per value, also if there is only one
+        if isinstance(header.get(k), UTCDateTime):
+            header[k] = [header[k]]
+    wfc = WFC(d, stats=CorrStats(header), wfc_processing=wfc_processing)
     wfc.av = av
     wfc.mean = mean
     return wfc
-- 
2.43.0


From 49b80d8b378259073d758745d8463205d654f2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 077/148] fix: waveform coherences at different times are not
 averaged

---
 src/seismic/monitor/monitor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index e770261..5197dd4 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -1212,6 +1212,9 @@ def average_components_wfc(wfcs: List[WFC]) -> WFC:
     for k in ['tw_start', 'tw_len', 'freq_min', 'freq_max']:
         if any((wfcp[k] != wfc.wfc_processing[k] for wfc in wfcs)):
             raise ValueError('%s is not allowed to differ.' % k)
+    if any(list(np.ravel(wfc.stats.corr_start)) != list(
+            np.ravel(stats.corr_start)) for wfc in wfcs):
+        raise ValueError('The times of the correlations must not differ.')
     meandict = {}
     for k in wfcs[0].keys():
         meandict[k] = np.nanmean([wfc[k] for wfc in wfcs], axis=0)
-- 
2.43.0


From 5d73145bf26d5cfedd4dd4b8735703581aa1a421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 078/148] fix: the whole coda is measured before its correction

---
 src/seismic/monitor/monitor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 5197dd4..6647f80 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -276,7 +276,8 @@ class Monitor(object):
         if self.options['dv']['tw_len'] is None:
             trim0 = cb.stats.start_lag
             trim1 = cb.stats.end_lag
-            cbt = cb
+            # the original is corrected below
+            cbt = cb.copy()
         else:
             trim0 = -(
                 tw_start+self.options['dv']['tw_len'])
-- 
2.43.0


From a552dbabd6f71723ea23e4a8bc7fa489ff6a651f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:38 +0000
Subject: [PATCH 079/148] fix: correlations are removed at listed times

---
 src/seismic/correlate/stream.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 8fd4327..315398e 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -1038,6 +1038,8 @@ class CorrStream(Stream):
         :rtype: CorrStream
         """
         cst_filt = CorrStream()
+        # any array-like, e.g., a list of strings from a parameter file
+        utcs = np.array([UTCDateTime(utc) for utc in utcs])
         for ctr in self:
             if not np.any(np.all(
                 [utcs > ctr.stats.corr_start, utcs < ctr.stats.corr_end],
-- 
2.43.0


From d820f3422bc70d1bc0d3eeafbc00b339945acc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:38 +0000
Subject: [PATCH 080/148] fix: monitoring with times or arrays among the
 options

---
 src/seismic/monitor/monitor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 6647f80..b96418d 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -117,7 +117,8 @@ class Monitor(object):
                         step['args']['ends'] = endsstr
             with open(os.path.join(
                     logdir, 'params%s.txt' % tstr), 'w') as file:
-                file.write(json.dumps(opt_dump, indent=1))
+                # times and arrays of the pre-/postprocessing as text
+                file.write(json.dumps(opt_dump, indent=1, default=str))
 
         # Find available stations and network
         self.netlist, self.statlist, self.infiles = \
-- 
2.43.0


From d851585bd6117b302f19c1415be2c7ac860460f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 081/148] fix: sensitivity kernels on grids with decimal
 spacing

---
 src/seismic/monitor/spatial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/spatial.py b/src/seismic/monitor/spatial.py
index d0314ae..b3a71bb 100644
--- a/src/seismic/monitor/spatial.py
+++ b/src/seismic/monitor/spatial.py
@@ -146,7 +146,8 @@ def sensitivity_kernel(
     atol = vel*dt/2
     if dt <= 0:
         raise ValueError('dt has to be greater than 0.')
-    if np.any(np.diff(x) != x[1]-x[0]) or np.any(np.diff(y) != y[1]-y[0]):
+    if not np.allclose(np.diff(x), x[1]-x[0]) \
+            or not np.allclose(np.diff(y), y[1]-y[0]):
         raise ValueError('x and y have to be monotonously increasing arrays.')
     if x[1]-x[0] < 2*vel*dt:
         warnings.warn(
-- 
2.43.0


From 9aac0fabbb6fbbdf2cf0d16d07fa8476c370b27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 082/148] fix: sensitivity kernels at arbitrary lapse times

---
 src/seismic/monitor/spatial.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/spatial.py b/src/seismic/monitor/spatial.py
index b3a71bb..5cd7dfe 100644
--- a/src/seismic/monitor/spatial.py
+++ b/src/seismic/monitor/spatial.py
@@ -154,7 +154,9 @@ def sensitivity_kernel(
             'dt is too large for the grid spacing. This can lead to '
             'artefacts in the kernel. dt should be smaller than '
             'dx/(2*vel).')
-    T = np.arange(0, t + dt, dt)
+    # Regular steps that end at the lapse time
+    T, step = np.linspace(
+        0, t, int(np.ceil(np.round(t/dt, 6))) + 1, retstep=True)
     dist_s1_s2 = np.linalg.norm(s1-s2)
     denom = probability(dist_s1_s2, t, vel, mf_path, atol=atol)
     dist_s1_x0 = compute_grid_dist(x, y, s1[0], s1[1])
@@ -165,7 +167,7 @@ def sensitivity_kernel(
         [probability(
             dist_s1_x0, tt, vel, mf_path, atol=atol) * probability(
             dist_s2_x0, t-tt, vel, mf_path, atol=atol) for tt in T],
-        dx=dt, axis=0)
+        dx=step, axis=0)
     K = nom/denom
     return K
 
-- 
2.43.0


From 9d3dd1b409b87282128e00a5c74b9ee4416dbb0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 083/148] fix: velocity changes are aligned to their own
 prediction

---
 src/seismic/monitor/spatial.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/spatial.py b/src/seismic/monitor/spatial.py
index 5cd7dfe..1e54fea 100644
--- a/src/seismic/monitor/spatial.py
+++ b/src/seismic/monitor/spatial.py
@@ -1018,7 +1018,16 @@ class DVGrid(object):
             return dvs
         # Compute the foward value at each of the remaining dvs
         if hasattr(self, 'vel_change'):
-            shifts = self.forward_model(self.vel_change, dvs, utc)
+            shifts, predicted = [], []
+            for dv in dvs:
+                try:
+                    shifts.extend(
+                        self.forward_model(self.vel_change, [dv], utc))
+                except IndexError:
+                    # no usable value at this time
+                    continue
+                predicted.append(dv)
+            dvs = predicted
             if np.any(np.isnan(shifts)):
                 raise ValueError(
                     'The forward model returned nan values. why?'
@@ -1092,6 +1101,7 @@ def dv_starts(dv: DV, utc: UTCDateTime, corr_thres: float) -> bool:
     if utc < dv.stats.corr_start[0] or utc > dv.stats.corr_end[-1]:
         return False
     ii = np.argmin(abs(np.array(dv.stats.corr_start)-utc))
-    if np.isnan(dv.corr[ii]) or dv.corr[ii] < corr_thres:
+    if np.isnan(dv.corr[ii]) or np.isnan(dv.value[ii]) \
+            or dv.corr[ii] < corr_thres:
         return False
     return True
-- 
2.43.0


From 0a78af00409a015893bc9b33cee3fe305ff1f020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 084/148] fix: undefined values do not bias the alignment

---
 src/seismic/monitor/spatial.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/src/seismic/monitor/spatial.py b/src/seismic/monitor/spatial.py
index 1e54fea..4a1be84 100644
--- a/src/seismic/monitor/spatial.py
+++ b/src/seismic/monitor/spatial.py
@@ -1065,18 +1065,11 @@ def align_dv_curves(
         raise ValueError(
             'No time available.'
             f' dv: {dv.stats.id}, utc: {utc}')
-    if ii < steps:
-        shift = np.nansum(
-            dv.value[:ii+steps+1]*dv.corr[:ii+steps+1])/np.nansum(
-                dv.corr[:ii+steps+1])
-    elif ii > len(dv.value)-steps:
-        shift = np.nansum(
-            dv.value[ii-steps:]*dv.corr[ii-steps:])/np.nansum(
-                dv.corr[ii-steps:])
-    else:
-        shift = np.nansum(
-            dv.value[ii-steps:ii+steps+1]*dv.corr[
-                ii-steps:ii+steps+1])/np.nansum(dv.corr[ii-steps:ii+steps+1])
+    window = slice(max(ii-steps, 0), ii+steps+1)
+    # the weights of undefined values do not count
+    weight = np.where(
+        np.isnan(dv.value[window]), np.nan, dv.corr[window])
+    shift = np.nansum(dv.value[window]*weight)/np.nansum(weight)
     dv.value -= shift-value
     dv.dv_processing['aligned'] = value
 
-- 
2.43.0


From b64c6029f4f6d139a1311a799aae136fd7fea272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 085/148] fix: inversion of velocity changes without processing
 information

---
 src/seismic/monitor/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/monitor/spatial.py b/src/seismic/monitor/spatial.py
index 4a1be84..444e1ac 100644
--- a/src/seismic/monitor/spatial.py
+++ b/src/seismic/monitor/spatial.py
@@ -776,7 +776,7 @@ class DVGrid(object):
         self._add_stations(slat1, slon1)
         vals = np.array(vals)
         corrs = np.array(corrs)
-        if processing is not None:
+        if processing is not None and 'tw_len' in processing:
             tw = (
                 processing['tw_start'],
                 processing['tw_start'] + processing['tw_len'])
-- 
2.43.0


From 7566bd5099759e738ae50bfa79f89bd75f15777b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:01 +0000
Subject: [PATCH 086/148] fix: no spectra of the undefined samples inside of
 gaps

---
 src/seismic/utils/raw_analysis.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/seismic/utils/raw_analysis.py b/src/seismic/utils/raw_analysis.py
index 54961cc..6168b9a 100644
--- a/src/seismic/utils/raw_analysis.py
+++ b/src/seismic/utils/raw_analysis.py
@@ -73,6 +73,12 @@ def spct_series_welch(
                 f'{e}')
             continue
         for wintr in tr.slide(window_length=window_length, step=window_length):
+            if np.ma.is_masked(wintr.data):
+                # the values inside of a gap are undefined
+                warnings.warn(
+                    'Incomplete data in time window: '
+                    f'{wintr.stats.starttime}. Skipping...')
+                continue
             try:
                 f, S = welch(wintr.data, fs=wintr.stats.sampling_rate)
                 # interpolate onto a logarithmic frequency space
-- 
2.43.0


From 204231121444a05d65a10b5f0d62c6205ad94476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:01 +0000
Subject: [PATCH 087/148] fix: no spectra after the requested end time

---
 src/seismic/trace_data/waveform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 9ed3fa1..a11e9fe 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -418,7 +418,7 @@ class Store_Client(object):
         starttimes = starttime.timestamp + np.arange(
             0, endtime.timestamp-starttime.timestamp, increment)
         for start in starttimes:
-            end = UTCDateTime(start + increment)
+            end = min(UTCDateTime(start + increment), endtime)
             st = self._load_local(
                 network, station, '*', channel, UTCDateTime(start), end,
                 attach_response=True, _check_times=False)
-- 
2.43.0


From 0cc547b4dd16b7f59954920a3e94173b6f77ddb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:01 +0000
Subject: [PATCH 088/148] fix: the read increment does not influence the
 spectrogram

---
 src/seismic/trace_data/waveform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index a11e9fe..8243ac4 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -467,6 +467,8 @@ class Store_Client(object):
             raise ValueError(
                 'read_increment must be >= win_len, got {} and {}'.format(
                     read_increment, win_len))
+        # only read complete windows
+        read_increment = read_increment//win_len*win_len
         data_gen = self._generate_time_windows(
             network, station, channel, starttime, endtime, read_increment)
         return spct_series_welch(
-- 
2.43.0


From 68c147753203775f20fb8ce9df0cc91cedcdce9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:49 +0000
Subject: [PATCH 089/148] fix: spectra of the last window before each read
 increment

---
 src/seismic/trace_data/waveform.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 8243ac4..0e39241 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -394,7 +394,8 @@ class Store_Client(object):
 
     def _generate_time_windows(
         self, network: str, station: str, channel: str, starttime: UTCDateTime,
-            endtime: UTCDateTime, increment: int = 86400) -> Iterator[Stream]:
+            endtime: UTCDateTime, increment: int = 86400,
+            overlap: float = 0) -> Iterator[Stream]:
         """
         Generates time windows with the requested increment from the requested
         station.
@@ -412,13 +413,16 @@ class Store_Client(object):
         :param increment: increment and window length between the windows,
             defaults to 86400
         :type increment: int, optional
+        :param overlap: length in seconds to read in addition at the end of
+            each window, defaults to 0
+        :type overlap: float, optional
         :yield: Stream with every window
         :rtype: Iterator[Stream]
         """
         starttimes = starttime.timestamp + np.arange(
             0, endtime.timestamp-starttime.timestamp, increment)
         for start in starttimes:
-            end = min(UTCDateTime(start + increment), endtime)
+            end = min(UTCDateTime(start + increment), endtime) + overlap
             st = self._load_local(
                 network, station, '*', channel, UTCDateTime(start), end,
                 attach_response=True, _check_times=False)
@@ -470,7 +474,9 @@ class Store_Client(object):
         # only read complete windows
         read_increment = read_increment//win_len*win_len
         data_gen = self._generate_time_windows(
-            network, station, channel, starttime, endtime, read_increment)
+            network, station, channel, starttime, endtime, read_increment,
+            # else, the last window may be too short after resampling
+            overlap=.5/freq_max)
         return spct_series_welch(
             data_gen, win_len, freq_max, remove_response=remove_response)
 
-- 
2.43.0


From 0fe1554e1219f1ef0a6d5ed143e4a5c42d46b718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:37 +0000
Subject: [PATCH 090/148] fix: archive data that has gaps to already archived
 data

---
 src/seismic/trace_data/waveform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 0e39241..76fc03b 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -373,7 +373,8 @@ class Store_Client(object):
         if os.path.exists(filename):
             rst = read(filename)
             rst.append(tr)
-            rst.merge()
+            # only join, gaps cannot be written
+            rst.merge(-1)
         else:
             if not os.path.exists(os.path.dirname(filename)):
                 os.makedirs(os.path.dirname(filename))
-- 
2.43.0


From 7fe2bba8a2bc9bea17d0eb6aa219e6ac388c3623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:37 +0000
Subject: [PATCH 091/148] fix: archive traces with a single sample

---
 src/seismic/trace_data/waveform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 76fc03b..076fe4c 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -353,13 +353,15 @@ class Store_Client(object):
         # write the data
         for tr in st:
             starttime = tr.stats.starttime
-            while starttime < tr.stats.endtime:
+            while True:
                 endtime = UTCDateTime(
                     starttime.year, starttime.month, starttime.day) + 86400*1.5
                 endtime = UTCDateTime(endtime.year, endtime.month, endtime.day)
                 ttr = tr.copy().trim(starttime, endtime, nearest_sample=False)
                 self._sds_write(ttr, starttime.year, starttime.julday)
                 starttime = endtime
+                if starttime >= tr.stats.endtime:
+                    break
 
     def _sds_write(self, tr, year, julday):
         """
-- 
2.43.0


From 5d86af899fe57b0d1f60136aca17c4f224dcb656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:37 +0000
Subject: [PATCH 092/148] fix: list stations next to folders that are no years

---
 src/seismic/trace_data/waveform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 076fe4c..b8be9ff 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -158,7 +158,7 @@ class Store_Client(object):
             os.path.join(self.sds_root, '????', network, '*'))
         statlist = []
         for path in oslist:
-            if not isinstance(eval(path.split(os.path.sep)[-3]), int):
+            if not path.split(os.path.sep)[-3].isdigit():
                 continue
             # Add all network and station combinations to list
             code = path.split(os.path.sep)[-2:]
-- 
2.43.0


From a620d1e02778c76f4848cd971ba11e5b0e40e490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:37 +0000
Subject: [PATCH 093/148] fix: read-only clients do not write inventories

---
 src/seismic/trace_data/waveform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index b8be9ff..d6c9938 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -391,6 +391,8 @@ class Store_Client(object):
             self.inventory += ninv
         else:
             self.inventory = ninv
+        if self.read_only:
+            return
         fname = os.path.join(
             self.inv_dir, f'{ninv[0].code}.{ninv[0][0].code}.xml')
         ninv.write(fname, format="STATIONXML", validate=True)
-- 
2.43.0


From ecc11c44255f2f99ed96588c17ca99688e5f16cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:13 +0000
Subject: [PATCH 094/148] fix: keep the responses of other channels of a
 station

---
 src/seismic/trace_data/waveform.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index d6c9938..6f7d595 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -395,6 +395,9 @@ class Store_Client(object):
             return
         fname = os.path.join(
             self.inv_dir, f'{ninv[0].code}.{ninv[0][0].code}.xml')
+        if os.path.isfile(fname):
+            # there may be other channels already
+            ninv = read_inventory(fname) + ninv
         ninv.write(fname, format="STATIONXML", validate=True)
 
     def _generate_time_windows(
-- 
2.43.0


From 5aa5d4f469f7c301a695797c4dea3e0a38e4498d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:07 +0000
Subject: [PATCH 095/148] fix: find the neighbouring files of all naming
 patterns

---
 src/seismic/trace_data/waveform.py | 74 ++++++++++--------------------
 1 file changed, 25 insertions(+), 49 deletions(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 6f7d595..41507f9 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -694,57 +694,33 @@ def _adjacent_filepattern(
     :type inc: int
     """
     assert ((inc == 1) or (inc == -1)), " inc must either be 1 or -1"
-    fname = ''
-    flag = 0
-    # find earlier time by turning back the time by one increment of the
-    # last time indicator in the fs
-    for part in fs[-1::-1]:
+    # the time indicators that are part of the file name
+    indicators = ''
+    for part in fs:
         if not isinstance(part, list):
             part = [part]
-        for tpart in part[-1::-1]:
-            if (not ((('(' in tpart) and (')' in tpart))
-                or (tpart in IDformat))
-                    and ('%' in tpart) and (flag == 0)):
-                flag = 1
-                if tpart in ['%H', '%I']:
-                    thistime = starttime + inc * datetime.timedelta(hours=1)
-                elif tpart == '%p':
-                    thistime = starttime + inc * datetime.timedelta(hours=12)
-                elif tpart in ['%a', '%A', '%w', '%d', '%j', '%-j']:
-                    thistime = starttime + inc * datetime.timedelta(days=1)
-                elif tpart in ['%U', '%W']:
-                    thistime = starttime + inc * datetime.timedelta(days=7)
-                elif tpart in ['%b', '%B', '%m']:
-                    if starttime.month + inc == 0:
-                        thistime = datetime.datetime(starttime.year-1,
-                                                     12,
-                                                     starttime.day,
-                                                     starttime.hour,
-                                                     starttime.minute,
-                                                     starttime.second,
-                                                     starttime.microsecond)
-                    elif starttime.month + inc == 13:
-                        thistime = datetime.datetime(starttime.year+1,
-                                                     1,
-                                                     starttime.day,
-                                                     starttime.hour,
-                                                     starttime.minute,
-                                                     starttime.second,
-                                                     starttime.microsecond)
-                    else:
-                        thistime = datetime.datetime(starttime.year,
-                                                     starttime.month + inc,
-                                                     starttime.day,
-                                                     starttime.hour,
-                                                     starttime.minute,
-                                                     starttime.second,
-                                                     starttime.microsecond)
-                elif tpart in ['%y', '%Y']:
-                    thistime = datetime.datetime(
-                        starttime.year - inc, starttime.month, starttime.day,
-                        starttime.hour, starttime.minute, starttime.second,
-                        starttime.microsecond)
-    fname = _current_filepattern(ID, thistime, fs)
+        for tpart in part:
+            if not ((('(' in tpart) and (')' in tpart))
+                    or (tpart in IDformat)):
+                indicators += ''.join(re.findall('%-?[a-zA-Z]', tpart))
+    if not indicators:
+        return _current_filepattern(ID, starttime, fs), starttime
+    # find the other time by changing the time by the increment of the
+    # finest time indicator until this leads to another file
+    if re.search('%-?M', indicators):
+        delta = datetime.timedelta(minutes=1)
+    elif re.search('%-?[HIp]', indicators):
+        delta = datetime.timedelta(hours=1)
+    else:
+        delta = datetime.timedelta(days=1)
+    current = fname = _current_filepattern(ID, starttime, fs)
+    thistime = starttime
+    # no unit is longer than a (leap) year
+    for _ in range(366):
+        thistime += inc * delta
+        fname = _current_filepattern(ID, thistime, fs)
+        if fname != current:
+            break
     return fname, thistime
 
 
-- 
2.43.0


From 3e42906168b686c29ac8a7d72356b59d808df8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:07 +0000
Subject: [PATCH 096/148] fix: replace parts of the ID in file names as
 documented

---
 src/seismic/trace_data/waveform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 41507f9..4172f88 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -745,7 +745,7 @@ def _fs_translate(part: str, ID: str, starttime: datetime.datetime) -> str:
     """
     IDlist = ID.split('.')
     if ('(' in part) and (')' in part):
-        trans = re.search('(.*?)', part).group(0)
+        trans = re.search(r'\(.*?\)', part).group(0)
     else:
         trans = None
     # in case there is something to translate remove from the filepart
-- 
2.43.0


From 9ccf503f2a8c8560bea6809222731f28abd734ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:22 +0000
Subject: [PATCH 097/148] fix: read files that only contain the first or last
 sample

---
 src/seismic/trace_data/waveform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 4172f88..1ac89dd 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -669,7 +669,7 @@ def _read_filepattern(
             print('%s from %s to %s\n' % (f, start, end))
     st = Stream()
     for ind, fname in enumerate(flist):
-        if (starttimes[ind] < endtime) and (endtimes[ind] > starttime):
+        if (starttimes[ind] <= endtime) and (endtimes[ind] >= starttime):
             if trim:
                 st += read(
                     fname, starttime=UTCDateTime(starttime),
-- 
2.43.0


From b46dc163ae7a07437a1893b1dc8f78b688371451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:49 +0000
Subject: [PATCH 098/148] fix: look for the sample at the requested start in
 the previous file

---
 src/seismic/trace_data/waveform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 1ac89dd..0a5539c 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -620,7 +620,7 @@ def read_from_filesystem(
 
     # if trace starts too late have a look in the previous section
     if (len(st) == 0) or (
-            (st[0].stats.starttime-st[0].stats.delta).datetime > starttime):
+            (st[0].stats.starttime-st[0].stats.delta).datetime >= starttime):
         fpattern, _ = _adjacent_filepattern(ID, starttime, fs, -1)
         if debug:
             print('Searching for files matching: %s\n at time %s\n' %
-- 
2.43.0


From 45d96bed5740dc5a2c82838a5afa0d8068516657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:22 +0000
Subject: [PATCH 099/148] fix: look for the end of the window in the following
 file

---
 src/seismic/trace_data/waveform.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 0a5539c..df125cc 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -628,8 +628,11 @@ def read_from_filesystem(
         st += _read_filepattern(fpattern, starttime, endtime, trim, debug)
         st.merge()
     thistime = starttime
-    while ((len(st) == 0) or (st[0].stats.endtime.datetime < endtime)) & (
-            thistime < endtime):
+    last = False
+    while not last and ((len(st) == 0) or (
+            (st[0].stats.endtime+st[0].stats.delta).datetime <= endtime)):
+        # the one after the section of the endtime might start early
+        last = thistime >= endtime
         fpattern, thistime = _adjacent_filepattern(ID, thistime, fs, 1)
         if debug:
             print('Searching for files matching: %s\n at time %s\n' %
-- 
2.43.0


From e04b82d1c203a501790ecb0380038ff705de1e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:43 +0000
Subject: [PATCH 100/148] fix: preprocessing does not change the data it is
 given

---
 src/seismic/correlate/preprocessing_fd.py | 1 +
 src/seismic/correlate/preprocessing_td.py | 9 +++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/preprocessing_fd.py b/src/seismic/correlate/preprocessing_fd.py
index ff55f2b..b887107 100644
--- a/src/seismic/correlate/preprocessing_fd.py
+++ b/src/seismic/correlate/preprocessing_fd.py
@@ -45,6 +45,7 @@ def FDfilter(B: np.ndarray, args: dict, params: dict) -> np.ndarray:
     args = deepcopy(args)
     args.update({'freqs': params['freqs']})
     tap = osignal.invsim.cosine_taper(B.shape[1], **args)
+    B = np.copy(B)
     B *= np.tile(np.atleast_2d(tap), (B.shape[0], 1))
     return B
 
diff --git a/src/seismic/correlate/preprocessing_td.py b/src/seismic/correlate/preprocessing_td.py
index 163c0c5..d739564 100644
--- a/src/seismic/correlate/preprocessing_td.py
+++ b/src/seismic/correlate/preprocessing_td.py
@@ -45,6 +45,8 @@ def clip(A: np.ndarray, args: dict, params: dict) -> np.ndarray:
     :rtype: numpy.ndarray
     :return: clipped time series data
     """
+    # the input remains unchanged
+    A = np.copy(A)
     stds = np.nanstd(A, axis=1)
     for ind in range(A.shape[0]):
         ts = args['std_factor']*stds[ind]
@@ -91,6 +93,7 @@ def detrend_scipy(A: np.ndarray, args: dict, params: dict) -> np.ndarray:
     """
     if np.all(np.isnan(A)):
         return A
+    A = np.copy(A)
     args = {k: v for k, v in args.items() if k != 'method'}
     for ii in range(A.shape[0]):
         try:
@@ -126,6 +129,7 @@ def detrendqr(data: np.ndarray) -> np.ndarray:
         coeff = np.dot(rq, data)
         data = data - np.dot(X, coeff)
     elif data.ndim == 2:
+        data = np.copy(data)
         for ii in range(data.shape[0]):
             coeff = np.dot(rq, data[ii])
             data[ii] = data[ii] - np.dot(X, coeff)
@@ -245,8 +249,7 @@ def mute(A: np.ndarray, args: dict, params: dict) -> np.ndarray:
         nmask[ind, :] = np.convolve(nmask[ind, :], tap, mode='same')
 
     # mute data with tapered mask
-    A *= nmask
-    return A
+    return A * nmask
 
 
 def normalizeStandardDeviation(
@@ -330,6 +333,7 @@ def taper(A: np.ndarray, args: dict, params: dict) -> np.ndarray:
     args = deepcopy(args)
     args.pop('type')
     tap = func(A.shape[1], **args)
+    A = np.copy(A)
     A *= np.tile(np.atleast_2d(tap), (A.shape[0], 1))
     return A
 
@@ -397,6 +401,7 @@ def TDnormalization(A: np.ndarray, args: dict, params: dict) -> np.ndarray:
     # traces without any energy remain zero
     B[B == 0] = 1
     # normalization
+    A = np.copy(A)
     A /= np.sqrt(B)
     return A
 
-- 
2.43.0


From d3b7c90906b2140543a5379a53ef72b2891ae220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:43 +0000
Subject: [PATCH 101/148] fix: matrix functions return new data and headers

---
 src/seismic/monitor/post_corr_process.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index a613121..18c31bd 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -146,7 +146,7 @@ def corr_mat_smooth(
     :return: **X**: Filtered matrix
     """
     # Remove nans
-    np.nan_to_num(data, copy=False)
+    data = np.nan_to_num(data)
 
     # Degenerated corr_mat: single vector
     try:
@@ -301,6 +301,7 @@ def corr_mat_resample(
 
     # assign new data
     data = nmat
+    stats = deepcopy(stats)
 
     for key in ('location', 'channel'):
         if isinstance(stats.get(key), (list, np.ndarray)):
@@ -358,9 +359,7 @@ def corr_mat_correct_decay(data: np.ndarray, stats: CorrStats) -> np.ndarray:
     tenv = A * np.exp(K * t)
 
     # correct with theoretical envelope
-    data /= np.tile(tenv, [data.shape[0], 1])
-
-    return data
+    return data / np.tile(tenv, [data.shape[0], 1])
 
 
 def corr_mat_envelope(data: np.ndarray) -> np.ndarray:
@@ -453,8 +452,7 @@ def corr_mat_normalize(
 
     # normalize the matrix
     norm[norm == 0] = 1
-    data /= np.tile(np.atleast_2d(norm).T, (1, data.shape[1]))
-    return data
+    return data / np.tile(np.atleast_2d(norm).T, (1, data.shape[1]))
 
 
 def corr_mat_mirror(data: np.ndarray, stats: CorrStats) -> Tuple[
@@ -595,6 +593,7 @@ def corr_mat_taper_center(
         end = max(stats['npts'], start)
     taper = taper[0:max(end - start, 0)]
     # apply taper
+    data = np.copy(data)
     data[:, start:start + len(taper)] *= \
         np.tile(np.atleast_2d(taper), (data.shape[0], 1))
 
@@ -1247,6 +1246,7 @@ def apply_shift(
     :type shifts: :class:`~numpy.ndarray`
     :param shifts: shifts in seconds for each trace in 'data'
     """
+    data = np.copy(data)
     times = np.linspace(stats.start_lag, stats.end_lag, stats.npts)
     # stretch every line
     for (ii, line) in enumerate(data):
@@ -1272,6 +1272,7 @@ def apply_stretch(
     :type stretches: :class:`~numpy.ndarray`
     :param stretches: stretches in relative units for each trace in 'data'
     """
+    data = np.copy(data)
     times = np.linspace(stats.start_lag, stats.end_lag, stats.npts)
 
     # stretch every line
-- 
2.43.0


From 795666d7c688518f6ab8137dcd83f5cfd438d681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:43 +0000
Subject: [PATCH 102/148] fix: selecting, stacking and plotting keep the order
 of streams

---
 src/seismic/correlate/stream.py      | 11 ++++++-----
 src/seismic/plot/plot_correlation.py |  2 ++
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 315398e..716d593 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -1087,18 +1087,20 @@ class CorrStream(Stream):
         :return: Correlation Stream holding all selected traces
         :rtype: CorrStream
         """
-        self.sort(keys=['corr_start'])
+        # the order of the original stream remains unchanged
+        st = CorrStream(self.traces)
+        st.sort(keys=['corr_start'])
         outst = CorrStream()
         # the 2 seconds difference are to avoid accidental smoothing
         if include_partially_selected:
-            for tr in self:
+            for tr in st:
                 if (tr.stats.corr_end > starttime
                     and tr.stats.corr_end < endtime) \
                         or tr.stats.corr_end == endtime:
                     outst.append(tr)
             return outst
         # else
-        for tr in self:
+        for tr in st:
             if tr.stats.corr_start >= starttime \
                     and tr.stats.corr_end <= endtime:
                 outst.append(tr)
@@ -1254,9 +1256,8 @@ class CorrStream(Stream):
             return stack_st_by_group(self, regard_location, weight)
 
         # else
-        self.sort(keys=['corr_start'])
         if not starttime:
-            starttime = self[0].stats.corr_start
+            starttime = min(tr.stats.corr_start for tr in self)
         if not endtime:
             endtime = max(tr.stats.corr_end for tr in self)
         outst = CorrStream()
diff --git a/src/seismic/plot/plot_correlation.py b/src/seismic/plot/plot_correlation.py
index 6a0a335..9d8ebeb 100644
--- a/src/seismic/plot/plot_correlation.py
+++ b/src/seismic/plot/plot_correlation.py
@@ -149,6 +149,8 @@ def plot_cst(
         ax = plt.axes()  # zorder=9999999
     if sort_by == 'distance':
         sort_by = 'dist'
+    # the order of the original stream remains unchanged
+    cst = cst.__class__(cst.traces)
     cst.sort(keys=[sort_by, 'network', 'station', 'channel'])
 
     if not cst.count():
-- 
2.43.0


From 6df11f89728617014be23a19f203b7c1c7268ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:43 +0000
Subject: [PATCH 103/148] fix: keep the headers that are combined

---
 src/seismic/correlate/stream.py | 7 +------
 src/seismic/utils/miic_utils.py | 3 +++
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 716d593..84a616b 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -1510,10 +1510,7 @@ def combine_stats(
         raise TypeError("stats2 must be an obspy Stats object.")
 
     # We also have to remove these as they are obspy AttributeDicts as well
-    stats1.pop('asdf', None)
-    stats2.pop('asdf', None)
-
-    tr1_keys = list(stats1.keys())
+    tr1_keys = [key for key in stats1 if key != 'asdf']
     tr2_keys = list(stats2.keys())
 
     stats = CorrStats()
@@ -1554,8 +1551,6 @@ def combine_stats(
             stats['evla'] = stats2.sac.stla
             stats['evlo'] = stats2.sac.stlo
             stats['evel'] = stats2.sac.stel
-            stats1.update(stats1['sac'])
-            stats2.update(stats2['sac'])
 
         az, baz, dist = m3ut.trace_calc_az_baz_dist(stats1, stats2)
 
diff --git a/src/seismic/utils/miic_utils.py b/src/seismic/utils/miic_utils.py
index 70811e4..2f2fb0b 100644
--- a/src/seismic/utils/miic_utils.py
+++ b/src/seismic/utils/miic_utils.py
@@ -65,6 +65,9 @@ def trace_calc_az_baz_dist(stats1: Stats, stats2: Stats) -> Tuple[
         print("Update obspy.")
         return
 
+    # The coordinates might only be defined in the SAC header
+    stats1, stats2 = (
+        st if 'stla' in st else st.get('sac', st) for st in (stats1, stats2))
     dist, az, baz = gps2dist_azimuth(
         stats1['stla'], stats1['stlo'], stats2['stla'], stats2['stlo'])
 
-- 
2.43.0


From 7acb4e48189bd7a0f69d08e107415362afe900dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:43 +0000
Subject: [PATCH 104/148] fix: create figures without the locale en_GB

---
 src/seismic/plot/plot_dv.py       |  5 -----
 src/seismic/plot/plot_spectrum.py |  3 ---
 src/seismic/plot/plot_utils.py    | 11 +++++++----
 3 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/seismic/plot/plot_dv.py b/src/seismic/plot/plot_dv.py
index 5928551..bac5b8c 100644
--- a/src/seismic/plot/plot_dv.py
+++ b/src/seismic/plot/plot_dv.py
@@ -14,7 +14,6 @@ Last Modified: Monday, 4th March 2024 02:44:41 pm
 from datetime import datetime
 from typing import Tuple, List
 import os
-import locale
 
 import matplotlib as mpl
 from matplotlib import pyplot as plt
@@ -51,10 +50,6 @@ def plot_fancy_dv(
     ax.set_ylim(ylim)
     plt.ylabel(r'$\frac{dv}{v}$ [%]')
     plt.grid(True, axis='y')
-    try:
-        locale.setlocale(locale.LC_ALL, "en_GB.utf8")
-    except Exception:
-        locale.setlocale(locale.LC_ALL, "en_GB.utf-8")
     ax.xaxis.set_major_formatter(mdates.DateFormatter(dateformat))
     plt.xticks(rotation=25)
 
diff --git a/src/seismic/plot/plot_spectrum.py b/src/seismic/plot/plot_spectrum.py
index 919be0e..db55ac7 100644
--- a/src/seismic/plot/plot_spectrum.py
+++ b/src/seismic/plot/plot_spectrum.py
@@ -16,7 +16,6 @@ Last Modified: Monday, 21st August 2023 12:22:56 pm
 import os
 from datetime import datetime
 from typing import Tuple
-import locale
 
 import numpy as np
 from matplotlib import pyplot as plt
@@ -66,8 +65,6 @@ def plot_spct_series(
     # Mask nans
     S = np.ma.masked_invalid(S)
 
-    # Show dates in English format
-    locale.setlocale(locale.LC_ALL, "en_GB.utf8")
     # Create UTC time series
 
     set_mpl_params()
diff --git a/src/seismic/plot/plot_utils.py b/src/seismic/plot/plot_utils.py
index 0b7f143..79f256d 100644
--- a/src/seismic/plot/plot_utils.py
+++ b/src/seismic/plot/plot_utils.py
@@ -57,10 +57,13 @@ def set_mpl_params():
     }
     mpl.rcParams.update(params)
     # Show dates in English format
-    try:
-        locale.setlocale(locale.LC_ALL, "en_GB.utf8")
-    except Exception:
-        locale.setlocale(locale.LC_ALL, "en_GB.utf-8")
+    for loc in ("en_GB.utf8", "en_GB.utf-8"):
+        try:
+            locale.setlocale(locale.LC_ALL, loc)
+            break
+        except locale.Error:
+            # not available on this machine
+            pass
 
 
 def remove_all(
-- 
2.43.0


From 893877750eb4e78910641fd2b2fe08d830a7f297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:53 +0000
Subject: [PATCH 105/148] fix: plot into the axes that are given

---
 src/seismic/monitor/spatial.py       | 2 ++
 src/seismic/plot/plot_correlation.py | 5 +++++
 src/seismic/plot/plot_dv.py          | 1 +
 3 files changed, 8 insertions(+)

diff --git a/src/seismic/monitor/spatial.py b/src/seismic/monitor/spatial.py
index 444e1ac..2496de1 100644
--- a/src/seismic/monitor/spatial.py
+++ b/src/seismic/monitor/spatial.py
@@ -970,6 +970,8 @@ class DVGrid(object):
         if not ax:
             plt.figure()
             ax = plt.gca()
+        else:
+            plt.sca(ax)
         norm = mpl.colors.TwoSlopeNorm(vcenter=0)
         map = ax.imshow(
             -100*np.flipud(self.vel_change), interpolation='none',
diff --git a/src/seismic/plot/plot_correlation.py b/src/seismic/plot/plot_correlation.py
index 9d8ebeb..e19c18b 100644
--- a/src/seismic/plot/plot_correlation.py
+++ b/src/seismic/plot/plot_correlation.py
@@ -36,6 +36,7 @@ def plot_ctr(
         ax = plt.gca()
         axtmp = None
     else:
+        plt.sca(ax)
         fig = plt.gcf()
         bbox = ax.get_window_extent().transformed(
             fig.dpi_scale_trans.inverted())
@@ -147,6 +148,8 @@ def plot_cst(
     if ax is None:
         plt.figure(figsize=(8, 6))
         ax = plt.axes()  # zorder=9999999
+    else:
+        plt.sca(ax)
     if sort_by == 'distance':
         sort_by = 'dist'
     # the order of the original stream remains unchanged
@@ -241,6 +244,8 @@ def plot_corr_bulk(
     if ax is None:
         plt.figure(figsize=(8, 6))
         ax = plt.axes()  # zorder=9999999
+    else:
+        plt.sca(ax)
 
     extent = [
         corr_bulk.stats.start_lag,
diff --git a/src/seismic/plot/plot_dv.py b/src/seismic/plot/plot_dv.py
index bac5b8c..be28486 100644
--- a/src/seismic/plot/plot_dv.py
+++ b/src/seismic/plot/plot_dv.py
@@ -34,6 +34,7 @@ def plot_fancy_dv(
     if not ax:
         fig = plt.figure(figsize=(12, 8))
     else:
+        plt.sca(ax)
         fig = ax.get_figure()
 
     val = -dv.value[~np.isnan(dv.corr)]*100
-- 
2.43.0


From 888a06b84429e8ca45c9d372eca8ac4f140bc483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:53 +0000
Subject: [PATCH 106/148] fix: lag axis of sections against distance

---
 src/seismic/plot/plot_correlation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/seismic/plot/plot_correlation.py b/src/seismic/plot/plot_correlation.py
index e19c18b..deafa87 100644
--- a/src/seismic/plot/plot_correlation.py
+++ b/src/seismic/plot/plot_correlation.py
@@ -327,10 +327,12 @@ def sect_plot_dist(
         ydata = ctr.data
         times = ctr.times()
         if ctr.stats.az >= 180:
-            times = -1*times
+            x = -1*times
+        else:
+            x = times
         ytmp = ydata * scalingfactor + ctr.stats.dist
 
-        ax.plot(times, ytmp, 'k', lw=linewidth, zorder=-ii + 0.1)
+        ax.plot(x, ytmp, 'k', lw=linewidth, zorder=-ii + 0.1)
     if plot_reference_v:
         yref = np.array([ax.get_ylim()[1], 0, ax.get_ylim()[1]])
         [plt.plot(
-- 
2.43.0


From d0d9ce42208345d00bde9091624f5f34ab4f2437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:53 +0000
Subject: [PATCH 107/148] fix: precision of sections against time

---
 src/seismic/plot/plot_correlation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/plot/plot_correlation.py b/src/seismic/plot/plot_correlation.py
index deafa87..410623b 100644
--- a/src/seismic/plot/plot_correlation.py
+++ b/src/seismic/plot/plot_correlation.py
@@ -280,7 +280,8 @@ def sect_plot_corr_start(
     cst: Stream, ax: plt.Axes, scalingfactor: float,
         linewidth: float) -> np.ndarray:
     for ii, ctr in enumerate(cst):
-        ydata = ctr.data
+        # times do not fit into single precision
+        ydata = np.asarray(ctr.data, dtype=float)
         times = ctr.times()
 
         ytmp = ctr.stats['corr_start'].timestamp
-- 
2.43.0


From f2f58ae25f108b0d7aff4e91b248673f82b558ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:53 +0000
Subject: [PATCH 108/148] fix: default names of velocity change figures are
 unique

---
 src/seismic/plot/plot_dv.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/seismic/plot/plot_dv.py b/src/seismic/plot/plot_dv.py
index be28486..7a97a23 100644
--- a/src/seismic/plot/plot_dv.py
+++ b/src/seismic/plot/plot_dv.py
@@ -127,12 +127,9 @@ def plot_technical_dv(
     # Create a unique filename if TraitsUI-default is given
     if figure_file_name == 'plot_default':
         fname = figure_file_name + '_change.png'
-        exist = os.path.isfile(os.path.join(save_dir, fname))
         i = 0
-        while exist:
-            fname = "%s_%i" % (figure_file_name, i)
-            exist = os.path.isfile(os.path.join(save_dir,
-                                                fname + '_change.png'))
+        while os.path.isfile(os.path.join(save_dir, fname)):
+            fname = "%s_%i_change.png" % (figure_file_name, i)
             i += 1
         figure_file_name = fname
 
-- 
2.43.0


From 6f895a559f6762c3c03499c3c4eee948be4215de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:53 +0000
Subject: [PATCH 109/148] fix: skip corrupt files in figures of several
 velocity changes

---
 src/seismic/plot/plot_multidv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/plot/plot_multidv.py b/src/seismic/plot/plot_multidv.py
index fc86762..4167b0b 100644
--- a/src/seismic/plot/plot_multidv.py
+++ b/src/seismic/plot/plot_multidv.py
@@ -85,13 +85,13 @@ def plot_multiple_dv(
             dv = read_dv(fi)
         except Exception:
             warn('Corrupt file %s discovered...skipping.' % fi)
+            continue
         val = -dv.value
         if plt_abs:
             val = abs(val)
         vals.append(val)
         rtime = [utcdt.datetime for utcdt in dv.stats['corr_start']]
         plt.plot(rtime, val, '.', markersize=.25)
-        vals.append(val)
         ax = plt.gca()
         statcodes.append(dv.stats.station)
     ax.xaxis.set_major_locator(mpl.dates.AutoDateLocator())
-- 
2.43.0


From 2a4769c16809f8647e0732a88f774dee73de6ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:04 +0000
Subject: [PATCH 110/148] fix: colour limits of spectral time series

---
 src/seismic/plot/plot_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/plot/plot_spectrum.py b/src/seismic/plot/plot_spectrum.py
index db55ac7..a192e31 100644
--- a/src/seismic/plot/plot_spectrum.py
+++ b/src/seismic/plot/plot_spectrum.py
@@ -120,7 +120,7 @@ def plot_spct_series(
     S /= S.max()
     pcm = plt.pcolormesh(
         t, f, S, shading='gouraud', cmap=cmap,
-        norm=colors.LogNorm(), vmin=vmin, vmax=vmax)
+        norm=colors.LogNorm(vmin=vmin, vmax=vmax))
     plt.colorbar(
         pcm, label='Energy (normalised)', orientation='horizontal', shrink=.6,
         pad=.25)
-- 
2.43.0


From 35a6bb302dcc8d37f656759c71a1a542a34cf0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:04 +0000
Subject: [PATCH 111/148] fix: normalise spectral time series with gaps

---
 src/seismic/plot/plot_spectrum.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/seismic/plot/plot_spectrum.py b/src/seismic/plot/plot_spectrum.py
index a192e31..440c509 100644
--- a/src/seismic/plot/plot_spectrum.py
+++ b/src/seismic/plot/plot_spectrum.py
@@ -95,20 +95,21 @@ def plot_spct_series(
         pass
     elif norm == 'f':
         if norm_method == 'linalg':
-            S = np.divide(S, np.linalg.norm(S, axis=1)[:, np.newaxis])
+            S = np.divide(
+                S, np.ma.sqrt(np.ma.sum(S**2, axis=1))[:, np.newaxis])
         elif norm_method == 'mean':
             S = np.divide(S, np.mean(S, axis=1)[:, np.newaxis])
         elif norm_method == 'median':
-            S = np.divide(S, np.median(S, axis=1)[:, np.newaxis])
+            S = np.divide(S, np.ma.median(S, axis=1)[:, np.newaxis])
         else:
             raise ValueError('Normalisation method %s unkown.' % norm_method)
     elif norm == 't':
         if norm_method == 'linalg':
-            S = np.divide(S, np.linalg.norm(S, axis=0))
+            S = np.divide(S, np.ma.sqrt(np.ma.sum(S**2, axis=0)))
         elif norm_method == 'mean':
             S = np.divide(S, np.mean(S, axis=0))
         elif norm_method == 'median':
-            S = np.divide(S, np.median(S, axis=0))
+            S = np.divide(S, np.ma.median(S, axis=0))
         else:
             raise ValueError('Normalisation method %s unkown.' % norm_method)
     else:
-- 
2.43.0


From 4641bc26937fb948ad6295c2ae9a510fd160b5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:04 +0000
Subject: [PATCH 112/148] fix: time limits of spectral time series

---
 src/seismic/plot/plot_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/plot/plot_spectrum.py b/src/seismic/plot/plot_spectrum.py
index 440c509..75e6624 100644
--- a/src/seismic/plot/plot_spectrum.py
+++ b/src/seismic/plot/plot_spectrum.py
@@ -86,7 +86,7 @@ def plot_spct_series(
     if tlim is not None:
         plt.xlim(tlim)
         ii = np.argmin(abs(t-tlim[0]))
-        jj = np.argmin(abs(t-tlim[1]))
+        jj = np.argmin(abs(t-tlim[1])) + 1
         t = t[ii:jj]
         S = S[:, ii:jj]
 
-- 
2.43.0


From cbfbb74065b3482e4097cf7a73b1268917f09f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:51 +0000
Subject: [PATCH 113/148] fix: Detrend matrices in which only some traces are
 undefined

---
 src/seismic/correlate/preprocessing_td.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/seismic/correlate/preprocessing_td.py b/src/seismic/correlate/preprocessing_td.py
index d739564..297c1ff 100644
--- a/src/seismic/correlate/preprocessing_td.py
+++ b/src/seismic/correlate/preprocessing_td.py
@@ -96,13 +96,11 @@ def detrend_scipy(A: np.ndarray, args: dict, params: dict) -> np.ndarray:
     A = np.copy(A)
     args = {k: v for k, v in args.items() if k != 'method'}
     for ii in range(A.shape[0]):
-        try:
-            A[ii, ~np.isnan(A[ii])] = sp_detrend(
-                A[ii, ~np.isnan(A[ii])], axis=-1, overwrite_data=True,
-                **args)
-        except ZeroDivisionError:
-            # When the line is nothing but nans
-            pass
+        defined = ~np.isnan(A[ii])
+        # Not when the line is nothing but nans
+        if defined.any():
+            A[ii, defined] = sp_detrend(
+                A[ii, defined], axis=-1, overwrite_data=True, **args)
     return A
 
 
-- 
2.43.0


From d6edec9437c85229e2530cccf169cdda4f14638b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:24 +0000
Subject: [PATCH 114/148] fix: Remove each response once and fetch missing ones
 per station

---
 src/seismic/correlate/correlate.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index f974997..e718ce8 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -1373,17 +1373,25 @@ def preprocess_stream(
 
     inv = store_client.inventory
     if remove_response:
-        try:
-            st.remove_response(taper=False, inventory=inv)
-        except ValueError:
-            print('Station response not found ... loading from remote.')
-            # missing station response
-            ninv = store_client.rclient.get_stations(
-                network=st[0].stats.network, station=st[0].stats.station,
-                channel='*', level='response')
-            st.remove_response(taper=False, inventory=ninv)
-            store_client._write_inventory(ninv)
-            inv += ninv
+        # The stream can hold several stations, the response of each trace
+        # has to be removed exactly once
+        remote = {}
+        for tr in st:
+            code = (tr.stats.network, tr.stats.station)
+            try:
+                tr.remove_response(
+                    taper=False, inventory=remote.get(code, inv))
+            except ValueError:
+                if code in remote:
+                    raise
+                print('Station response not found ... loading from remote.')
+                # missing station response
+                remote[code] = store_client.rclient.get_stations(
+                    network=code[0], station=code[1], channel='*',
+                    level='response')
+                tr.remove_response(taper=False, inventory=remote[code])
+                store_client._write_inventory(remote[code])
+                inv = store_client.inventory
 
     # Sometimes Z has reversed polarity
     if inv:
-- 
2.43.0


From f9b433c0c94a0d7c9331cbd8f77d9663c4518dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:18 +0000
Subject: [PATCH 115/148] fix: Mass downloads create one file per calendar day

---
 src/seismic/trace_data/waveform.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index df125cc..6274aa4 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -92,9 +92,14 @@ class Store_Client(object):
             minlatitude=minlat, maxlatitude=maxlat, minlongitude=minlon,
             maxlongitude=maxlon)
 
+        # One file per calendar day. Days that are already available are not
+        # downloaded again, so download complete days.
+        day0 = UTCDateTime(starttime.date)
+        day1 = UTCDateTime((endtime - 1e-6).date) + 86400
+
         restrictions = Restrictions(
-            starttime=starttime,
-            endtime=endtime,
+            starttime=day0,
+            endtime=day1,
             # Chunk it to have one file per day.
             chunklength_in_sec=86400,
             # Considering the enormous amount of data associated with
-- 
2.43.0


From 190bded6de9d10072fb82815cd66b1b448f2be57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:15 +0000
Subject: [PATCH 116/148] fix: Normalise similarities that are undefined for
 some velocity changes

---
 src/seismic/plot/plot_dv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/plot/plot_dv.py b/src/seismic/plot/plot_dv.py
index 7a97a23..4142c4d 100644
--- a/src/seismic/plot/plot_dv.py
+++ b/src/seismic/plot/plot_dv.py
@@ -151,7 +151,7 @@ def plot_technical_dv(
     # normalize simmat if requested and if dv contains simmat
     if normalize_simmat and plot_sim_mat:
         sim_mat = sim_mat/np.tile(
-            np.max(sim_mat, axis=1), (sim_mat.shape[1], 1)).T
+            np.nanmax(sim_mat, axis=1), (sim_mat.shape[1], 1)).T
 
     stretching_amount = np.max(stretch_vect)
 
-- 
2.43.0


From 7ead51ff2210e480d63ffd05a2445a5623cd2cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:15 +0000
Subject: [PATCH 117/148] fix: Show similarities at the negative of their
 values for all grids

---
 src/seismic/plot/plot_dv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/seismic/plot/plot_dv.py b/src/seismic/plot/plot_dv.py
index 4142c4d..488332e 100644
--- a/src/seismic/plot/plot_dv.py
+++ b/src/seismic/plot/plot_dv.py
@@ -153,7 +153,7 @@ def plot_technical_dv(
         sim_mat = sim_mat/np.tile(
             np.nanmax(sim_mat, axis=1), (sim_mat.shape[1], 1)).T
 
-    stretching_amount = np.max(stretch_vect)
+    stretching_amount = np.max(np.abs(stretch_vect))
 
     # Adapt plot details in agreement with the type of dictionary that
     # has been passed
@@ -207,7 +207,7 @@ def plot_technical_dv(
     # Set extent so we can treat the axes properly (mainly y)
     if plot_sim_mat:
         imh.set_extent((
-            0, sim_mat.shape[0], stretch_vect[-1], stretch_vect[0]))
+            0, sim_mat.shape[0], -stretch_vect[0], -stretch_vect[-1]))
 
     ###
     if xlim:
-- 
2.43.0


From e03ec3d41c341868ae00ce80013a7f5b8efdbe42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:21 +0000
Subject: [PATCH 118/148] fix: Each file that matches several filters is
 plotted once

---
 src/seismic/plot/plot_multidv.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/seismic/plot/plot_multidv.py b/src/seismic/plot/plot_multidv.py
index 4167b0b..8b55550 100644
--- a/src/seismic/plot/plot_multidv.py
+++ b/src/seismic/plot/plot_multidv.py
@@ -75,11 +75,11 @@ def plot_multiple_dv(
     vals = []
     infiles = glob(pat)
     if statfilter is not None:
-        statfilter = ['*%s*' % filt for filt in statfilter]
-        infiles_new = []
-        for filt in statfilter:
-            infiles_new.extend(fnmatch.filter(infiles, filt))
-        infiles = infiles_new
+        # Each file once, irrespective of the name of the directory
+        infiles = [
+            fi for fi in infiles if any(
+                fnmatch.fnmatch(os.path.basename(fi), '*%s*' % filt)
+                for filt in statfilter)]
     for fi in infiles:
         try:
             dv = read_dv(fi)
-- 
2.43.0


From b958763cf9b9b176f4c1414d8ba7f99314066e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:58 +0000
Subject: [PATCH 119/148] fix: Averages of all methods are plotted with
 only_mean

---
 src/seismic/plot/plot_multidv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/seismic/plot/plot_multidv.py b/src/seismic/plot/plot_multidv.py
index 8b55550..ebe8d2b 100644
--- a/src/seismic/plot/plot_multidv.py
+++ b/src/seismic/plot/plot_multidv.py
@@ -68,12 +68,12 @@ def plot_multiple_dv(
     """
     set_mpl_params()
     if only_mean:
-        pat = os.path.join(indir, '*.av-*.npz')
+        pats = ('*.av.npz', '*.av-*.npz')
     else:
-        pat = os.path.join(indir, '*.npz')
+        pats = ('*.npz',)
     statcodes = []
     vals = []
-    infiles = glob(pat)
+    infiles = [fi for pat in pats for fi in glob(os.path.join(indir, pat))]
     if statfilter is not None:
         # Each file once, irrespective of the name of the directory
         infiles = [
-- 
2.43.0


From 1f61d9f6390927d1914182de8dc8ba4af4c75177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:58 +0000
Subject: [PATCH 120/148] fix: Save figures of several velocity changes without
 a format

---
 src/seismic/plot/plot_multidv.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/seismic/plot/plot_multidv.py b/src/seismic/plot/plot_multidv.py
index ebe8d2b..8193212 100644
--- a/src/seismic/plot/plot_multidv.py
+++ b/src/seismic/plot/plot_multidv.py
@@ -115,6 +115,9 @@ def plot_multiple_dv(
         plt.tight_layout()
         if fmt == 'pdf' or fmt == 'svg':
             plt.savefig('%s.%s' % (outfile, fmt), format=fmt)
+        elif fmt is None:
+            # chosen by the name of the file
+            plt.savefig(outfile, dpi=dpi)
         else:
             plt.savefig('%s.%s' % (outfile, fmt), format=fmt, dpi=dpi)
     else:
-- 
2.43.0


From a1cd643370e72bdff657a86841737bb68bffc441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:59 +0000
Subject: [PATCH 121/148] fix: Figures of several velocity changes without any
 readable file

---
 src/seismic/plot/plot_multidv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/seismic/plot/plot_multidv.py b/src/seismic/plot/plot_multidv.py
index 8193212..cb8adf0 100644
--- a/src/seismic/plot/plot_multidv.py
+++ b/src/seismic/plot/plot_multidv.py
@@ -80,6 +80,7 @@ def plot_multiple_dv(
             fi for fi in infiles if any(
                 fnmatch.fnmatch(os.path.basename(fi), '*%s*' % filt)
                 for filt in statfilter)]
+    ax = plt.gca()
     for fi in infiles:
         try:
             dv = read_dv(fi)
@@ -92,10 +93,9 @@ def plot_multiple_dv(
         vals.append(val)
         rtime = [utcdt.datetime for utcdt in dv.stats['corr_start']]
         plt.plot(rtime, val, '.', markersize=.25)
-        ax = plt.gca()
         statcodes.append(dv.stats.station)
     ax.xaxis.set_major_locator(mpl.dates.AutoDateLocator())
-    if plot_median:
+    if plot_median and len(vals):
         mean = np.nanmedian(vals, axis=0)
         plt.plot(rtime, mean, 'k')
         statcodes.append('median')
-- 
2.43.0


From 84b55c48f6099c50912c35fc07eae8d7de6a6856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:38 +0000
Subject: [PATCH 122/148] fix: Spectral series when the first process has no
 data

---
 src/seismic/utils/raw_analysis.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/seismic/utils/raw_analysis.py b/src/seismic/utils/raw_analysis.py
index 6168b9a..11cb183 100644
--- a/src/seismic/utils/raw_analysis.py
+++ b/src/seismic/utils/raw_analysis.py
@@ -53,6 +53,7 @@ def spct_series_welch(
     specl = []
     # List of actually available times
     t = []
+    f2 = None
     for ii, st in enumerate(streams):
         # Find out which stream to process
         if ii % psize != rank:
@@ -95,7 +96,13 @@ def spct_series_welch(
     # Gather all the data
     specl = comm.gather(specl, root=0)
     t = comm.gather(t, root=0)
+    # There might be no data for this rank
+    f2 = comm.gather(f2, root=0)
     if rank == 0:
+        f2 = next((f for f in f2 if f is not None), None)
+        if f2 is None:
+            raise ValueError(
+                'A spectrum could not be computed. Check earlier log messages')
         # Flatten the list
         specl = [item for sublist in specl for item in sublist]
         t = [item for sublist in t for item in sublist]
@@ -106,11 +113,7 @@ def spct_series_welch(
         # Convert to numpy array
         S = np.array(specl)
         t = np.array(t)
-        try:
-            return f2, t, S.T
-        except UnboundLocalError:
-            raise ValueError(
-                'A spectrum could not be computed. Check earlier log messages')
+        return f2, t, S.T
     else:
         return None, None, None
 
-- 
2.43.0


From 7d6dcb73b46c4d537016764392ea49944dfb5747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:34 +0000
Subject: [PATCH 123/148] fix: Stations that cannot be preprocessed do not
 affect others

---
 src/seismic/correlate/correlate.py | 60 +++++++++++++++---------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index e718ce8..e59995d 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -24,6 +24,7 @@ import fnmatch
 from mpi4py import MPI
 import numpy as np
 from obspy import Stream, UTCDateTime, Inventory, Trace
+from obspy.clients.fdsn.header import FDSNException
 from tqdm import tqdm
 
 from seismic.correlate.stream import CorrTrace, CorrStream
@@ -541,18 +542,8 @@ class Correlator(object):
             mu.stream_require_dtype(st, np.float32)
 
             if not self.options['preprocess_subdiv']:
-                try:
-                    self.logger.debug('Preprocessing stream...')
-                    st = preprocess_stream(
-                        st, self.store_client, startt, endt, tl,
-                        **self.options)
-                except ValueError as e:
-                    self.logger.error(
-                        'Stream preprocessing failed for '
-                        f'{st[0].stats.network}.{st[0].stats.station} and time'
-                        f' {t}.\nThe Original Error Message was {e}.')
-                    # Other processes might hold data
-                    st = Stream()
+                self.logger.debug('Preprocessing stream...')
+                st = self._preprocess_stations(st, startt, endt, tl)
             else:
                 # The windows start at the beginning of the read increment
                 st.merge()
@@ -616,23 +607,8 @@ class Correlator(object):
                         continue
                 # Stream based preprocessing
                 if self.options['preprocess_subdiv']:
-                    try:
-                        win = preprocess_stream(
-                            win, self.store_client, winstart, winend,
-                            tl, **self.options)
-                    except ValueError as e:
-                        if st.count():
-                            self.logger.error(
-                                'Stream preprocessing failed for '
-                                f'{st[0].stats.network}.{st[0].stats.station}'
-                                ' and time '
-                                f'{t}.\nThe Original Error Message was {e}.')
-                        else:
-                            self.logger.error(
-                                'Stream preprocessing failed for '
-                                'time '
-                                f'{t}.\nThe Original Error Message was {e}.')
-                        continue
+                    win = self._preprocess_stations(
+                        win, winstart, winend, tl)
                     # nothing might be left of a trace (masks)
                     mu.get_valid_traces(win)
                     if self.rank == 0:
@@ -645,7 +621,7 @@ class Correlator(object):
                     self.options['combinations'] = self.comm.bcast(
                         self.options['combinations'], root=0)
 
-                if not len(win):
+                if not len(win) or not len(self.options['combinations']):
                     # no new combinations for this time period
                     self.logger.info(
                         f'No new data for times {winstart}-{winend}')
@@ -658,6 +634,30 @@ class Correlator(object):
                 yield win, write_flag
                 write_flag = False
 
+    def _preprocess_stations(
+        self, st: Stream, startt: UTCDateTime, endt: UTCDateTime,
+            taper_len: float) -> Stream:
+        """
+        Preprocess each station on its own. A station that cannot be
+        preprocessed (e.g., unknown response) does not affect the others.
+
+        .. seealso:: :func:`~seismic.correlate.correlate.preprocess_stream`
+        """
+        out = Stream()
+        codes = [(tr.stats.network, tr.stats.station) for tr in st]
+        for net, stat in sorted(set(codes)):
+            stst = Stream([
+                tr for tr, code in zip(st, codes) if code == (net, stat)])
+            try:
+                out.extend(preprocess_stream(
+                    stst, self.store_client, startt, endt, taper_len,
+                    **self.options))
+            except (ValueError, FDSNException) as e:
+                self.logger.error(
+                    f'Stream preprocessing failed for {net}.{stat} and time'
+                    f' {startt}.\nThe Original Error Message was {e}.')
+        return out
+
     def _pxcorr_matrix(self, A: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
         # time domain processing
         # map of traces on processes
-- 
2.43.0


From 06d04a3882ee3e0cf541c0c0484c5c2aa890d542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:59 +0000
Subject: [PATCH 124/148] fix: stretch windows that exceed the acausal side are
 an error

---
 src/seismic/monitor/stretch_mod.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index fa4d189..c1908c8 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -301,6 +301,9 @@ def velocity_change_estimate(
             raise ValueError(
                 'sides = %s not a valid option.' % sides)
 
+        if np.min(ctw) < 0:
+            raise IndexError('The time window exceeds the correlations.')
+
         mask = np.zeros((mat.shape[1],))
         mask[ctw] = 1
 
-- 
2.43.0


From b66f3908aa93d0056acad0a8f17a60f699ed8ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:59 +0000
Subject: [PATCH 125/148] fix: One-dimensional shifts and stretches of the
 wrong length are an error

---
 src/seismic/monitor/stretch_mod.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index c1908c8..21f9de3 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -1149,7 +1149,7 @@ def time_shift_apply(
         t_shift[:, 0] = shift
         shift = t_shift
     # shift has the wrong length
-    elif shift.shape[0] != mat.shape[0]:
+    if shift.shape[0] != mat.shape[0]:
         raise ValueError('shift.shape[0] must be equal corr_data.shape[0]')
 
     # if there is a significant clock drift during a correlation
@@ -1207,7 +1207,7 @@ def time_stretch_apply(
         t_stretch[:, 0] = stretch
         stretch = t_stretch
     # stretch has the wrong length
-    elif stretch.shape[0] != mat.shape[0]:
+    if stretch.shape[0] != mat.shape[0]:
         raise ValueError('stretch.shape[0] must be equal corr_data.shape[0]')
 
     # shift has multiple columns (multiple measurements for the same time)
-- 
2.43.0


From d6723cb0c6cdb78c75f146de1c2fdf910859bb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:34 +0000
Subject: [PATCH 126/148] fix: A station without any files in the archive is
 reported as such

---
 src/seismic/trace_data/waveform.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 6274aa4..40a901f 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -806,20 +806,18 @@ def get_day_in_folder(
     :rtype: UTCDateTime
     """
     if type == 'start':
-        i0 = 0
-        ii = 1
+        years = dirlist
     elif type == 'end':
-        i0 = -1
-        ii = -1
+        years = dirlist[::-1]
     else:
         raise NotImplementedError('Type has to be either start or end.')
     julday = None
-    while not julday:
+    for year in years:
         # if the folder is empty julday will stay False
-        year = dirlist[i0]
         julday = [i.split('.')[-1] for i in glob.glob(
             os.path.join(root, year, network, station, channel, '*'))]
-        i0 += ii
+        if julday:
+            break
     if not julday:
         raise FileNotFoundError(
             'Station %s.%s not in database' % (network, station))
-- 
2.43.0


From 43fc8c115bb16ec9aeab451678504b2e7aa0caf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:34 +0000
Subject: [PATCH 127/148] fix: Every point outside of the grid is refused

---
 src/seismic/monitor/spatial.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/seismic/monitor/spatial.py b/src/seismic/monitor/spatial.py
index 2496de1..9c82f6d 100644
--- a/src/seismic/monitor/spatial.py
+++ b/src/seismic/monitor/spatial.py
@@ -882,13 +882,13 @@ class DVGrid(object):
         x, y = geo2cart(lat, lon, self.lat0, self.lon0)
         if not isinstance(x, np.ndarray):
             if np.all(abs(self.xf-x) > self.res) \
-                    or np.all(abs(self.yf-y > self.res)):
+                    or np.all(abs(self.yf-y) > self.res):
                 raise ValueError(
                     'The point is outside the coordinate grid'
                 )
             return np.argmin(abs(self.xf-x)**2+abs(self.yf-y)**2)
-        if np.all(np.array([abs(self.xf-xx) for xx in x]) > self.res)\
-                or np.all(np.array([abs(self.yf-yy) for yy in y]) > self.res):
+        if any(np.all(abs(self.xf-xx) > self.res) for xx in x)\
+                or any(np.all(abs(self.yf-yy) > self.res) for yy in y):
             raise ValueError(
                 'The point is outside the coordinate grid'
             )
-- 
2.43.0


From e2a14ef82106d20e77e720783ed9d49d2425f9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:34 +0000
Subject: [PATCH 128/148] fix: The time to mark in a plot may be a string

---
 src/seismic/plot/plot_dv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/plot/plot_dv.py b/src/seismic/plot/plot_dv.py
index 488332e..55ec73f 100644
--- a/src/seismic/plot/plot_dv.py
+++ b/src/seismic/plot/plot_dv.py
@@ -120,6 +120,8 @@ def plot_technical_dv(
 
     if sim_mat_Clim and len(sim_mat_Clim) != 2:
         raise ValueError('Sim_mat_Clim has to be a list or Tuple of length 2.')
+    if isinstance(mark_time, str):
+        mark_time = UTCDateTime(mark_time).datetime
 
     if figure_file_name:
         os.makedirs(save_dir, exist_ok=True)
-- 
2.43.0


From f2c0c48e58b0a5c27b8014b752e186063681fe10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:34 +0000
Subject: [PATCH 129/148] fix: Creating a CorrBulk without any correlations is
 a ValueError

---
 src/seismic/correlate/stream.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 84a616b..6f078c3 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -947,9 +947,10 @@ class CorrStream(Stream):
         if times:
             st = st.select_corr_time(times[0], times[1])
         if not st.count():
-            raise ValueError(
-                f'CorrStream contains no data between {times[0]} and '
-                f'{times[1]}.')
+            msg = 'CorrStream contains no data'
+            if times:
+                msg += f' between {times[0]} and {times[1]}'
+            raise ValueError(f'{msg}.')
         A = np.empty((st.count(), st[0].stats.npts))
         statlist = []
         # Double check sampling rate
-- 
2.43.0


From dd2b53847af93a36676afc4459e0dbbf0f560039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:34 +0000
Subject: [PATCH 130/148] fix: Tapers shorter than half a sample have no effect

---
 src/seismic/correlate/preprocessing_stream.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/seismic/correlate/preprocessing_stream.py b/src/seismic/correlate/preprocessing_stream.py
index 36c3eee..669b4fd 100644
--- a/src/seismic/correlate/preprocessing_stream.py
+++ b/src/seismic/correlate/preprocessing_stream.py
@@ -105,6 +105,9 @@ def cos_taper(
     if tl_n * 2 > tr.stats.npts:
         raise ValueError(
             'Taper Length * 2 has to be smaller or equal to trace\'s length.')
+    if tl_n == 0:
+        # shorter than half a sample
+        return tr
     taper = np.ones_like(tr.data)
     tap = np.sin(np.linspace(0, np.pi, tl_n*2))
     taper[:tl_n] = tap[:tl_n]
-- 
2.43.0


From 92ae413e822677bf1f644acc2f5504165fcbddca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:34 +0000
Subject: [PATCH 131/148] fix: Unknown plot types are refused for plots against
 distance, too

---
 src/seismic/plot/plot_correlation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/seismic/plot/plot_correlation.py b/src/seismic/plot/plot_correlation.py
index 410623b..8441bad 100644
--- a/src/seismic/plot/plot_correlation.py
+++ b/src/seismic/plot/plot_correlation.py
@@ -178,6 +178,9 @@ def plot_cst(
         elif type == 'heatmap':
             times = heat_plot_corr_dist(
                 cst, ax, cmap=cmap, vmin=vmin, vmax=vmax, **kwargs)
+        else:
+            raise NotImplementedError(
+                'Unknown or not implemented plot type %s.' % type)
     else:
         raise NotImplementedError('Unknown sorting method %s.' % sort_by)
 
-- 
2.43.0


From 953ac85964121ddc533a11eb56e57414c5ef1125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:53 +0000
Subject: [PATCH 132/148] fix: Velocity changes of several channels can be
 printed

---
 src/seismic/monitor/dv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/monitor/dv.py b/src/seismic/monitor/dv.py
index 0d2d3f2..88f3a9d 100644
--- a/src/seismic/monitor/dv.py
+++ b/src/seismic/monitor/dv.py
@@ -89,7 +89,7 @@ class DV(object):
         Print a prettier string.
         """
         code = f'{self.stats.network}.{self.stats.station}.'\
-            + self.stats.channel
+            + f'{self.stats.channel}'
         out = f'{self.method} {self.value_type} velocity change estimate of '\
             + f'{code}.\nstarttdate: {min(self.stats.corr_start).ctime()}\n'\
             + f'enddate: {max(self.stats.corr_end).ctime()}\n\n'\
-- 
2.43.0


From d5a7da48daa7050e656cf9ed52bcb344d1d8dc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:05 +0000
Subject: [PATCH 133/148] fix: Normalisation windows are not shifted by
 round-off errors

---
 src/seismic/monitor/post_corr_process.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 18c31bd..1ee8363 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -420,13 +420,14 @@ def corr_mat_normalize(
     if starttime is not None:
         # first sample
         start = starttime - stats['start_lag']
-        start = int(np.floor(start*stats['sampling_rate']))
+        # do not let round-off errors shift the window
+        start = int(np.floor(np.round(start*stats['sampling_rate'], 6)))
     else:
         start = None
 
     if endtime is not None:
         end = endtime - stats['start_lag']
-        end = int(np.floor(end*stats['sampling_rate']))
+        end = int(np.floor(np.round(end*stats['sampling_rate'], 6)))
     else:
         end = None
 
-- 
2.43.0


From 69be9f324bb68a2c68e8a7289a3c5591eceb4abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:05 +0000
Subject: [PATCH 134/148] fix: Windows of shift measurements are not affected
 by round-off

---
 src/seismic/monitor/post_corr_process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 1ee8363..76a0537 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -1204,8 +1204,8 @@ def measure_shift(
     for twi in tw:
         # create indices of time windows
         indices = np.arange(
-            np.ceil(twi[0]*stats.sampling_rate),
-            np.floor(twi[1]*stats.sampling_rate))
+            np.ceil(np.round(twi[0]*stats.sampling_rate, 6)),
+            np.floor(np.round(twi[1]*stats.sampling_rate, 6)))
         if sides == 'both':
             indices = np.concatenate((np.flipud(-indices), indices))
         indices -= np.round(stats.start_lag * stats.sampling_rate)
-- 
2.43.0


From 492553f639acee2903e125de8179eeb447cbe50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:58 +0000
Subject: [PATCH 135/148] fix: Spectral series of streams that overlap in time

---
 src/seismic/utils/raw_analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/utils/raw_analysis.py b/src/seismic/utils/raw_analysis.py
index 11cb183..4965bb9 100644
--- a/src/seismic/utils/raw_analysis.py
+++ b/src/seismic/utils/raw_analysis.py
@@ -107,7 +107,8 @@ def spct_series_welch(
         specl = [item for sublist in specl for item in sublist]
         t = [item for sublist in t for item in sublist]
         # Sort from values in t
-        specl = [x for _, x in sorted(zip(t, specl))]
+        specl = [
+            x for _, x in sorted(zip(t, specl), key=lambda item: item[0])]
         t = sorted(t)
 
         # Convert to numpy array
-- 
2.43.0


From c0d19aed5e19fcdaede302615c5e2101024e6087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:32 +0000
Subject: [PATCH 136/148] fix: Preprocessing in the time domain may change the
 number of samples

---
 src/seismic/correlate/correlate.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index e59995d..bccd8de 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -685,7 +685,11 @@ class Correlator(object):
 
         for proc in corr_args['TDpreProcessing']:
             func = func_from_str(proc['function'])
-            A[ind, :] = func(A[ind, :], proc['args'], params)
+            out = func(A[ind, :], proc['args'], params)
+            if out.shape[1] != A.shape[1]:
+                # e.g., if zeros were appended
+                A = np.zeros((ntrc, out.shape[1]), dtype=A.dtype)
+            A[ind, :] = out
 
         # zero-padding
         A = pptd.zeroPadding(A, {'type': 'avoidWrapFastLen'}, params)
-- 
2.43.0


From 0f8086d2fead561bce782337deb2bab7739df6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:03 +0000
Subject: [PATCH 137/148] fix: Gaps at the ends of integer data are not filled

There is nothing to interpolate from; the undefined values became
arbitrary numbers in integer data.
---
 src/seismic/utils/miic_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/seismic/utils/miic_utils.py b/src/seismic/utils/miic_utils.py
index 2f2fb0b..d852f28 100644
--- a/src/seismic/utils/miic_utils.py
+++ b/src/seismic/utils/miic_utils.py
@@ -520,6 +520,9 @@ def interpolate_gaps(A: np.ndarray, max_gap_len: int = -1) -> np.ndarray:
             warnings.warn(
                 'Gap too large. Not interpolating.', UserWarning)
             continue
+        if mstart == 0 or mstart+ml == len(A):
+            # Ends cannot be interpolated (and integers hold no nans)
+            continue
         A[mstart:mstart+ml] = np.interp(
             np.arange(mstart, mstart+ml), x[~mask],
             A[~mask], left=np.nan, right=np.nan)
-- 
2.43.0


From eb3e6503a37132b3c13b4ffd38862cdfd93d4899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:19 +0000
Subject: [PATCH 138/148] fix: Masks that start or end at a sample are exact

Round-off errors masked the neighbouring sample as well.
---
 src/seismic/correlate/preprocessing_stream.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/preprocessing_stream.py b/src/seismic/correlate/preprocessing_stream.py
index 669b4fd..9266ab5 100644
--- a/src/seismic/correlate/preprocessing_stream.py
+++ b/src/seismic/correlate/preprocessing_stream.py
@@ -286,10 +286,11 @@ def trace_mask_at_utc(
             continue
         # Find start-index in trace, might start before the trace
         t = s-start
-        ns = max(int(np.floor(tr.stats.sampling_rate*t)), 0)
+        # samples exactly at the limits are not subject to round-off
+        ns = max(int(np.floor(np.round(tr.stats.sampling_rate*t, 5))), 0)
         # find stop index
         t = e-start
-        ne = int(np.ceil(tr.stats.sampling_rate*t))+1
+        ne = int(np.ceil(np.round(tr.stats.sampling_rate*t, 5)))+1
         mask[ns:ne] = True
 
     if reverse:
-- 
2.43.0


From a859f372b6484288a2172b0fb26bdb37113de568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:19 +0000
Subject: [PATCH 139/148] fix: Muting with a taper of less than two samples

A taper of one sample muted everything, a shorter one raised an error.
---
 src/seismic/correlate/preprocessing_td.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/seismic/correlate/preprocessing_td.py b/src/seismic/correlate/preprocessing_td.py
index 297c1ff..92764d5 100644
--- a/src/seismic/correlate/preprocessing_td.py
+++ b/src/seismic/correlate/preprocessing_td.py
@@ -241,10 +241,12 @@ def mute(A: np.ndarray, args: dict, params: dict) -> np.ndarray:
         nmask = mask
 
     # apply taper
-    tap = 2. - (np.cos(np.arange(ntap, dtype=float)/ntap*2.*np.pi) + 1.)
-    tap /= ntap
-    for ind in range(A.shape[0]):
-        nmask[ind, :] = np.convolve(nmask[ind, :], tap, mode='same')
+    # fewer than two samples are no taper
+    if ntap > 1:
+        tap = 2. - (np.cos(np.arange(ntap, dtype=float)/ntap*2.*np.pi) + 1.)
+        tap /= ntap
+        for ind in range(A.shape[0]):
+            nmask[ind, :] = np.convolve(nmask[ind, :], tap, mode='same')
 
     # mute data with tapered mask
     return A * nmask
-- 
2.43.0


From 5a982cb9a2dfa329872f6191b20570cf4ed3f21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:14 +0000
Subject: [PATCH 140/148] fix: Single traces can be padded with zeros

One-dimensional arrays raised an error.
---
 src/seismic/correlate/preprocessing_td.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/seismic/correlate/preprocessing_td.py b/src/seismic/correlate/preprocessing_td.py
index 92764d5..d643161 100644
--- a/src/seismic/correlate/preprocessing_td.py
+++ b/src/seismic/correlate/preprocessing_td.py
@@ -479,11 +479,9 @@ def zeroPadding(A: np.ndarray, args: dict, params: dict, axis=1) -> np.ndarray:
         raise NotImplementedError('Only two-dimensional arrays are supported.')
     if A.ndim == 1 and len(A) == 0:
         raise ValueError('Input Array is empty')
+    if A.ndim == 1:
+        axis = 0
     npts = A.shape[axis]
-    if A.ndim == 2:
-        ntrc = A.shape[axis-1]
-    elif A.ndim == 1:
-        ntrc = 1
     if args['type'] == 'nextFastLen':
         N = next_fast_len(npts)
     elif args['type'] == 'avoidWrapAround':
@@ -496,10 +494,7 @@ def zeroPadding(A: np.ndarray, args: dict, params: dict, axis=1) -> np.ndarray:
         raise ValueError("type '%s' of zero padding not implemented" %
                          args['type'])
 
-    if axis == 0:
-        A = np.concatenate(
-            (A, np.zeros((N-npts, ntrc), dtype=np.float32)), axis=axis)
-    else:
-        A = np.concatenate(
-            (A, np.zeros((ntrc, N-npts), dtype=np.float32)), axis=axis)
+    shape = list(A.shape)
+    shape[axis] = N - npts
+    A = np.concatenate((A, np.zeros(shape, dtype=np.float32)), axis=axis)
     return A
-- 
2.43.0


From 83c411f1dfd5c03d3398b7cafd1180a5d813a885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:37 +0000
Subject: [PATCH 141/148] fix: Round-off does not lengthen the lag axis of
 correlations

E.g., 0.55 s at 100 Hz were stored with a sample more on each side.
---
 src/seismic/correlate/correlate.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index bccd8de..60d4c61 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -727,9 +727,10 @@ class Correlator(object):
         # correlation
         csize = len(self.options['combinations'])
         irfftsize = zmsize[1]
+        # a whole number of samples is not subject to round-off
         sampleToSave = int(
-            np.ceil(
-                corr_args['lengthToSave'] * self.sampling_rate))
+            np.ceil(np.round(
+                corr_args['lengthToSave'] * self.sampling_rate, 6)))
         C = np.zeros((csize, sampleToSave*2+1), dtype=np.float32)
 
         pmap = np.arange(csize)*self.psize/csize
-- 
2.43.0


From 01cfd55cc52a7f3fcd0eb0600a3cc5ab50e92a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:37 +0000
Subject: [PATCH 142/148] fix: Round-off does not change lengths of tapers,
 paddings, and windows

---
 src/seismic/correlate/preprocessing_td.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/seismic/correlate/preprocessing_td.py b/src/seismic/correlate/preprocessing_td.py
index d643161..fcf4de0 100644
--- a/src/seismic/correlate/preprocessing_td.py
+++ b/src/seismic/correlate/preprocessing_td.py
@@ -205,7 +205,7 @@ def mute(A: np.ndarray, args: dict, params: dict) -> np.ndarray:
         raise ValueError('Taper Length cannot be zero.')
 
     # return zeros if length of traces is shorter than taper
-    ntap = int(args['taper_len']*params['sampling_rate'])
+    ntap = int(np.round(args['taper_len']*params['sampling_rate'], 6))
     if A.shape[1] <= ntap:
         return np.zeros_like(A)
 
@@ -384,9 +384,9 @@ def TDnormalization(A: np.ndarray, args: dict, params: dict) -> np.ndarray:
     # simple calculation of envelope
     B = B**2
     # smoothing of envelope in both directions to avoid a shift
-    window = (
-        np.ones(int(np.ceil(args['windowLength'] * params['sampling_rate'])))
-        / np.ceil(args['windowLength']*params['sampling_rate']))
+    nwin = int(np.ceil(np.round(
+        args['windowLength']*params['sampling_rate'], 6)))
+    window = np.ones(nwin)/nwin
     if len(B.shape) == 1:
         B = np.convolve(B, window, mode='same')
         B = np.convolve(B[::-1], window, mode='same')[::-1]
@@ -485,11 +485,11 @@ def zeroPadding(A: np.ndarray, args: dict, params: dict, axis=1) -> np.ndarray:
     if args['type'] == 'nextFastLen':
         N = next_fast_len(npts)
     elif args['type'] == 'avoidWrapAround':
-        N = npts + int(np.ceil(
-            params['sampling_rate'] * params['lengthToSave']))
+        N = npts + int(np.ceil(np.round(
+            params['sampling_rate'] * params['lengthToSave'], 6)))
     elif args['type'] == 'avoidWrapFastLen':
-        N = next_fast_len(npts + int(np.ceil(
-            params['sampling_rate'] * params['lengthToSave'])))
+        N = next_fast_len(npts + int(np.ceil(np.round(
+            params['sampling_rate'] * params['lengthToSave'], 6))))
     else:
         raise ValueError("type '%s' of zero padding not implemented" %
                          args['type'])
-- 
2.43.0


From fed630fdadb9e1577864ccf78649699ce391459c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:21 +0000
Subject: [PATCH 143/148] fix: Normalisation windows without samples are not
 used

The energy of an empty window made all data undefined, limits on the
wrong side of the data selected other samples than requested.
---
 src/seismic/monitor/post_corr_process.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 76a0537..04d632e 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -438,6 +438,14 @@ def corr_mat_normalize(
     if end and end >= stats['npts']:
         print('Error: endtime after end of trace. Data not changed.')
         return data
+    if start and start >= stats['npts']:
+        print('Error: starttime after end of trace. Data not changed.')
+        return data
+    if end and end < 0:
+        print('Error: endtime before beginning of trace. Data not changed.')
+        return data
+    if not data[:, start:end].shape[1]:
+        raise ValueError('The time window for the normalisation is empty.')
 
     # calculate normalization factors
     if normtype == 'energy':
-- 
2.43.0


From c8976589f3484f7d33fbb41bc65c8e4b77d27afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:27 +0000
Subject: [PATCH 144/148] fix: Both ends are reflected for smoothing

The sample next to the first one was left out, windows as long as the
data raised an error.
---
 src/seismic/monitor/post_corr_process.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 04d632e..d3c015f 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -106,8 +106,7 @@ def _smooth(
             "Window is not one of 'flat', 'hanning', 'hamming', "
             "'bartlett', 'blackman'")
 
-    s = np.r_[2 * x[0] - x[window_len:1:-1], x,
-              2 * x[-1] - x[-1:-window_len:-1]]
+    s = np.pad(x, window_len - 1, 'reflect', reflect_type='odd')
 
     if window == 'flat':  # moving average
         w = np.ones(window_len, 'd')
-- 
2.43.0


From 73f20e4d2fdd76b802b015aa916db14fd5536bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:07 +0000
Subject: [PATCH 145/148] fix: Round-off does not widen the taper at the centre

---
 src/seismic/monitor/post_corr_process.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index d3c015f..4ca1ec7 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -580,8 +580,10 @@ def corr_mat_taper_center(
         raise ValueError('Taper width longer than signal.')
 
     # calculate size of taper (should be an even number)
-    length = int(2. * np.ceil(width * stats['sampling_rate'] / 2.))
-    slope_length = int(np.ceil(length * slope_frac / 2.))
+    # round-off errors must not add samples
+    length = int(2. * np.ceil(
+        np.round(width * stats['sampling_rate'] / 2., 6)))
+    slope_length = int(np.ceil(np.round(length * slope_frac / 2., 6)))
 
     # calculate inverse taper
     taper = np.zeros(length + 1)
-- 
2.43.0


From bf585481b02e70e2b1b923276166bf7a71588966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:22 +0000
Subject: [PATCH 146/148] fix: Stretched traces are not extrapolated

time_stretch_apply evaluated the spline outside of the trace, where it
grows with the third power: a stretch of 5 per cent of a trace with 401
samples gave amplitudes that exceeded those of the data by a factor of
100. As in apply_stretch and time_stretch_estimate, there are zeros
where there are no data.
---
 src/seismic/monitor/stretch_mod.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index 21f9de3..e8f932a 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -1230,7 +1230,8 @@ def time_stretch_apply(
 
     # stretch every line
     for (ii, line) in enumerate(mat):
-        s = UnivariateSpline(time_idx, line, s=0)
+        # no data outside of the trace
+        s = UnivariateSpline(time_idx, line, s=0, ext='zeros')
         stretched_mat[ii, :] = s(time_idx * (1 + stretch[ii]))
         stretched_mat[ii, :] = s(time_idx * np.exp(stretch[ii]))
 
-- 
2.43.0


From 76a55879d17b1db58d3349afe707a5da09072655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:23 +0000
Subject: [PATCH 147/148] fix: Round-off does not enlarge the grid

The axes of DVGrid had a point more than needed to cover the requested
extent if the division of extent plus resolution by the resolution is
subject to round-off, e.g., 1.8 km with a resolution of 0.3 km.
---
 src/seismic/monitor/spatial.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/spatial.py b/src/seismic/monitor/spatial.py
index 9c82f6d..b218962 100644
--- a/src/seismic/monitor/spatial.py
+++ b/src/seismic/monitor/spatial.py
@@ -312,8 +312,11 @@ class DVGrid(object):
 
         # Compute local grid
         x0, y0 = 0, 0
-        self.xaxis = np.arange(x0, x0 + x + res, res)
-        self.yaxis = np.arange(y0, y0 + y + res, res)
+        # Round-off must not add a cell beyond the extent of the grid
+        self.xaxis = x0 + np.arange(
+            np.ceil(np.round(x/res, 6)) + 1, dtype=int)*res
+        self.yaxis = y0 + np.arange(
+            np.ceil(np.round(y/res, 6)) + 1, dtype=int)*res
         self.res = res
         self.xgrid, self.ygrid = np.meshgrid(self.xaxis, self.yaxis)
         self.xf = self.xgrid.flatten()
-- 
2.43.0


From b79db9317c03f2f55d234edfed57b8e9915ad046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:47 +0000
Subject: [PATCH 148/148] fix: Round-off does not prevent decimation

Data were resampled instead of decimated if the quotient of the sampling
rates is subject to round-off, e.g., from 1 to 0.1 Hz or from 20 to
0.8 Hz.
---
 src/seismic/monitor/post_corr_process.py | 6 ++++--
 src/seismic/utils/miic_utils.py          | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 4ca1ec7..c3aebd5 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -729,8 +729,10 @@ def corr_mat_resample_or_decimate(
     """
     sr = stats['sampling_rate']
 
-    if sr/freq == sr//freq:
-        return corr_mat_decimate(data, stats, int(sr//freq))
+    # Round-off must not prevent the decimation, e.g., from 1 to 0.1 Hz
+    factor = sr/freq
+    if np.isclose(factor, np.round(factor), rtol=1e-9, atol=0):
+        return corr_mat_decimate(data, stats, int(np.round(factor)))
     else:
         return corr_mat_resample_time(data, stats, freq)
 
diff --git a/src/seismic/utils/miic_utils.py b/src/seismic/utils/miic_utils.py
index d852f28..1db8750 100644
--- a/src/seismic/utils/miic_utils.py
+++ b/src/seismic/utils/miic_utils.py
@@ -180,8 +180,9 @@ def resample_or_decimate(
         # Use a different filter
         freq = sr * 0.45 / factor
         data.filter('lowpass_cheby_2', freq=freq, maxorder=12)
-    if sr/srn == sr//srn:
-        return data.decimate(int(sr//srn), no_filter=True)
+    # Round-off must not prevent the decimation, e.g., from 1 to 0.1 Hz
+    if np.isclose(factor, np.round(factor), rtol=1e-9, atol=0):
+        return data.decimate(int(np.round(factor)), no_filter=True)
     else:
         return data.resample(srn)
 
-- 
2.43.0

