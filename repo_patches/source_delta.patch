From 4043527b1becbea2e314bc3d0a8b47c12817b74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:08 +0000
Subject: [PATCH 01/99] fix: keep MPI processes in step regardless of the data
 they read

Windows were cut relative to the first trace a process happened to hold and
failures in resampling/preprocessing of one channel made a process leave the
read increment early (deadlock) or discarded the channels of other stations.
---
 src/seismic/correlate/correlate.py | 158 +++++++++++++++++------------
 1 file changed, 95 insertions(+), 63 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index f58d133..5d50503 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -11,6 +11,7 @@ Created: Monday, 29th March 2021 07:58:18 am
 Last Modified: Monday, 4th March 2024 02:27:00 pm
 '''
 from copy import deepcopy
+from itertools import count
 from typing import Iterator, List, Tuple, Optional
 from warnings import warn
 import os
@@ -504,56 +505,32 @@ class Correlator(object):
                 # Load data
                 stext = self.store_client._load_local(
                     net, stat, '*', cha, startt, endt, True, False)
-                mu.get_valid_traces(stext)
-                if stext is None or not len(stext):
+                if stext is None:
                     # No data for this station to read
                     continue
-                st.extend(stext)
-
-            # Stream based preprocessing
-            # Downsampling
-            # 04/04/2023 Downsample before preprocessing for performance
-            # Check sampling frequency
-            sampling_rate = self.options['sampling_rate']
-            # AA-Filter is done in this function as well
-            try:
-                st = mu.resample_or_decimate(st, sampling_rate)
-            except ValueError as e:
-                self.logger.error(
-                    'Downsampling failed for '
-                    f'{st[0].stats.network}.{st[0].stats.station} and time'
-                    f' {t}.\nThe Original Error Message was {e}.')
-                continue
-            # The actual data in the mseeds was changed from int to float64
-            # now,
-            # Save some space by changing it back to 32 bit (most of the
-            # digitizers work at 24 bit anyways)
-            mu.stream_require_dtype(st, np.float32)
-
-            if not self.options['preprocess_subdiv']:
-                try:
-                    self.logger.debug('Preprocessing stream...')
-                    st = preprocess_stream(
-                        st, self.store_client, startt, endt, tl,
-                        **self.options)
-                except ValueError as e:
-                    self.logger.error(
-                        'Stream preprocessing failed for '
-                        f'{st[0].stats.network}.{st[0].stats.station} and time'
-                        f' {t}.\nThe Original Error Message was {e}.')
-                    continue
+                mu.get_valid_traces(stext)
+                # Every channel is treated on its own, so that the outcome
+                # does not depend on which other channels are handled by
+                # the same process. Under no circumstances may a process
+                # leave this loop, as this would cause a deadlock.
+                st.extend(self._prepare_channel(stext, startt, endt, tl))
 
             # Slice the stream in correlation length
             # -> Loop over correlation increments
-            for ii, win in enumerate(generate_corr_inc(st, **self.options)):
+            wins = generate_corr_inc(st, startt=startt, **self.options)
+            for ii in count():
                 winstart = startt + ii*self.options['subdivision']['corr_inc']
                 winend = winstart + self.options['subdivision']['corr_len']
 
                 # Gather time windows from all stations to all cores
-                winl = self.comm.allgather(win)
+                # The number of windows depends on the data, so only stop
+                # if there are no windows left on any core (else: deadlock).
+                winl = self.comm.allgather(next(wins, None))
+                if all(winp is None for winp in winl):
+                    break
                 win = Stream()
                 for winp in winl:
-                    win.extend(winp)
+                    win.extend(winp or [])
                 win.sort(keys=['network', 'station', 'channel'])
 
                 # Get correlation combinations
@@ -641,6 +618,59 @@ class Correlator(object):
                 yield win, write_flag
                 write_flag = False
 
+    def _prepare_channel(
+        self, st: Stream, startt: UTCDateTime, endt: UTCDateTime,
+            tl: float) -> Stream:
+        """
+        Resamples and (if not done later on the subdivided stream)
+        preprocesses the raw data of one channel.
+
+        :param st: raw data
+        :type st: Stream
+        :param startt: Start of the read increment
+        :type startt: UTCDateTime
+        :param endt: End of the read increment
+        :type endt: UTCDateTime
+        :param tl: Taper length
+        :type tl: float
+        :return: The processed Stream, empty if the data cannot be used.
+        :rtype: Stream
+        """
+        # Stream based preprocessing
+        # Downsampling
+        # 04/04/2023 Downsample before preprocessing for performance
+        # Check sampling frequency
+        # AA-Filter is done in this function as well
+        for tr in list(st):
+            try:
+                mu.resample_or_decimate(tr, self.options['sampling_rate'])
+            except ValueError as e:
+                self.logger.error(
+                    'Downsampling failed for '
+                    f'{tr.stats.network}.{tr.stats.station} and time'
+                    f' {startt}.\nThe Original Error Message was {e}.')
+                st.remove(tr)
+        if not len(st):
+            return st
+        # The actual data in the mseeds was changed from int to float64
+        # now,
+        # Save some space by changing it back to 32 bit (most of the
+        # digitizers work at 24 bit anyways)
+        mu.stream_require_dtype(st, np.float32)
+
+        if self.options['preprocess_subdiv']:
+            return st
+        code = f'{st[0].stats.network}.{st[0].stats.station}'
+        try:
+            self.logger.debug('Preprocessing stream...')
+            return preprocess_stream(
+                st, self.store_client, startt, endt, tl, **self.options)
+        except ValueError as e:
+            self.logger.error(
+                f'Stream preprocessing failed for {code} and time'
+                f' {startt}.\nThe Original Error Message was {e}.')
+            return Stream()
+
     def _pxcorr_matrix(self, A: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
         # time domain processing
         # map of traces on processes
@@ -1393,7 +1423,7 @@ def preprocess_stream(
 
 def generate_corr_inc(
     st: Stream, subdivision: dict, read_len: int,
-        **kwargs) -> Iterator[Stream]:
+        startt: Optional[UTCDateTime] = None, **kwargs) -> Iterator[Stream]:
     """
     Subdivides the preprocessed streams into parts of equal length using
     the parameters ``cor_inc`` and ``cor_len`` in ``subdivision``.
@@ -1406,30 +1436,32 @@ def generate_corr_inc(
     :type subdivision: dict
     :param read_len: Length to be read from disk in seconds
     :type read_len: int
+    :param startt: Start of the first window, defaults to the starttime of the
+        first trace.
+    :type startt: UTCDateTime, optional
     :yield: Equal length windows, padded with nans / masked if data is missing.
     :rtype: Generator[Stream]
     """
-
-    try:
-        # Second loop to return the time window in correlation length
-        for ii, win0 in enumerate(st.slide(
-            subdivision['corr_len']-st[0].stats.delta, subdivision['corr_inc'],
-                include_partial_windows=True)):
-
-            # We use trim so the windows have the right time and
-            # are filled with masked arrays for places without values
-            starttrim = st[0].stats.starttime + ii*subdivision['corr_inc']
-            endtrim = st[0].stats.starttime + ii*subdivision['corr_inc'] +\
-                subdivision['corr_len']-st[0].stats.delta
-            win = win0.trim(starttrim, endtrim, pad=True)
-            mu.get_valid_traces(win)
-            yield win
-
-    except IndexError:
-        # processes with no data end up here
+    if len(st):
+        startt = startt or st[0].stats.starttime
+        endt = max(tr.stats.endtime for tr in st)
+    for ii in range(int(np.ceil(read_len/subdivision['corr_inc']))):
+        if not len(st):
+            # processes with no data end up here
+            yield Stream()
+            continue
+        if startt + ii*subdivision['corr_inc'] >= endt:
+            # No data left
+            return
+        # We use trim so the windows have the right time and
+        # are filled with masked arrays for places without values
+        starttrim = startt + ii*subdivision['corr_inc']
+        endtrim = starttrim + subdivision['corr_len'] - st[0].stats.delta
         win = Stream()
-        # A little dirty, but it has to go through an equally long loop
-        # else this will cause a deadlock
-        for _ in range(int(np.ceil(
-                read_len/subdivision['corr_inc']))):
-            yield win
+        for tr in st:
+            # one by one because obspy aligns the times of all traces in a
+            # stream to the samples of the first one
+            win += Stream([tr]).slice(starttrim, endtrim).trim(
+                starttrim, endtrim, pad=True)
+        mu.get_valid_traces(win)
+        yield win
-- 
2.43.0


From ff846cfcbcb289f15fc320ebb3825d2b118ad70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:54 +0000
Subject: [PATCH 02/99] fix: do not skip traces when removing invalid ones from
 a stream

---
 src/seismic/utils/miic_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/seismic/utils/miic_utils.py b/src/seismic/utils/miic_utils.py
index e7f9136..180af33 100644
--- a/src/seismic/utils/miic_utils.py
+++ b/src/seismic/utils/miic_utils.py
@@ -338,7 +338,7 @@ def get_valid_traces(st: Stream):
     :param st: stream to work on
 
     """
-    for tr in st:
+    for tr in list(st):
         if isinstance(tr.data, np.ma.MaskedArray):
             if tr.data.mask.all():
                 st.remove(tr)
@@ -356,7 +356,7 @@ def discard_short_traces(st: Stream, length: float):
 
     .. note:: Action is performed in place.
     """
-    for tr in st:
+    for tr in list(st):
         if tr.stats.npts/tr.stats.sampling_rate <= length:
             st.remove(tr)
             logging.debug(f'Discarding short Trace {tr}.')
-- 
2.43.0


From 76983a0a0c9bdf73e79ed55cfe9d91928e4bb0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:05 +0000
Subject: [PATCH 03/99] fix: sort station pairs by their codes rather than the
 concatenated codes

---
 src/seismic/correlate/correlate.py | 4 ++--
 src/seismic/correlate/stream.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 5d50503..f68d34f 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -1247,8 +1247,8 @@ def sort_comb_name_alphabetically(
     if not all([isinstance(arg, str) for arg in [
             network1, network2, station1, station2]]):
         raise TypeError('All arguments have to be strings.')
-    sort1 = network1 + station1 + channel1
-    sort2 = network2 + station2 + channel2
+    sort1 = [network1, station1, channel1]
+    sort2 = [network2, station2, channel2]
     sort = [sort1, sort2]
     sorted = sort.copy()
     sorted.sort()
diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index a90d595..66403ee 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -1421,8 +1421,8 @@ def alphabetical_correlation(
     """
     # make sure the order is correct
     # Will do that always alphabetically sorted
-    sort1 = header1.network + header1.station + header1.channel
-    sort2 = header2.network + header2.station + header2.channel
+    sort1 = [header1.network, header1.station, header1.channel]
+    sort2 = [header2.network, header2.station, header2.channel]
     sort = [sort1, sort2]
     sorted = sort.copy()
     sorted.sort()
-- 
2.43.0


From 2107ffaefab35b17f5e34143c3e9372ba21b2a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:15 +0000
Subject: [PATCH 04/99] fix: wildcard requests on the correlation database

Do not reorder codes that contain wildcards (HHZ-* became *-HHZ), treat ?
as exactly one character when reading and removing data, allow wildcards
within a code, sort reversed pairs if later codes contain wildcards, and do
not return the correlation options as a trace.
---
 src/seismic/db/corr_hdf5.py | 57 ++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 19 deletions(-)

diff --git a/src/seismic/db/corr_hdf5.py b/src/seismic/db/corr_hdf5.py
index 724b43b..25708de 100644
--- a/src/seismic/db/corr_hdf5.py
+++ b/src/seismic/db/corr_hdf5.py
@@ -16,7 +16,7 @@ import ast
 import fnmatch
 import os
 import re
-from typing import List
+from typing import List, Tuple
 import warnings
 from copy import deepcopy
 
@@ -165,13 +165,7 @@ omitted." % path, category=UserWarning)
                 'Network, Station, and channel code may not contain wildcards.'
             )
         # Make sure the request is structured correctly
-        sort = ['.'.join([net, stat, chan]) for net, stat, chan in zip(
-                network.split('-'), station.split('-'), channel.split('-'))]
-        sorted = sort.copy()
-        sorted.sort()
-        if sorted != sort:
-            network, station, channel = ['-'.join([a, b]) for a, b in zip(
-                sorted[0].split('.'), sorted[1].split('.'))]
+        network, station, channel = sort_request(network, station, channel)
 
         if isinstance(corr_start, UTCDateTime):
             corr_start = corr_start.format_fissures()
@@ -195,7 +189,6 @@ omitted." % path, category=UserWarning)
             return
         # Now, we need to differ between the fnmatch pattern and the actually
         # accessed path
-        path = path.replace('?', '*')
         pattern = path.replace('/*', '*')
         for sst in self.get_available_starttimes(
                 network, station, tag, channel)[channel]:
@@ -245,13 +238,7 @@ omitted." % path, category=UserWarning)
         :rtype: CorrStream
         """
         # Make sure the request is structured correctly
-        sort = ['.'.join([net, stat, chan]) for net, stat, chan in zip(
-                network.split('-'), station.split('-'), channel.split('-'))]
-        sorted = sort.copy()
-        sorted.sort()
-        if sorted != sort:
-            network, station, channel = ['-'.join([a, b]) for a, b in zip(
-                sorted[0].split('.'), sorted[1].split('.'))]
+        network, station, channel = sort_request(network, station, channel)
 
         if isinstance(corr_start, UTCDateTime):
             corr_start = corr_start.format_fissures()
@@ -271,9 +258,10 @@ omitted." % path, category=UserWarning)
             return CorrStream(CorrTrace(data, _header=header))
         # Now, we need to differ between the fnmatch pattern and the actually
         # accessed path
-        path = path.replace('?', '*')
         pattern = path.replace('/*', '*')
-        path = path.split('*')[0]
+        # the deepest group whose name does not contain any wildcards
+        path = re.split(r'[*?]', path)[0]
+        path = path[:path.rindex('/')+1]
         return all_traces_recursive(self[path], CorrStream(), pattern)
 
     def get_available_starttimes(
@@ -444,7 +432,9 @@ def all_traces_recursive(
     for v in group.values():
         if isinstance(v, h5py._hl.group.Group):
             all_traces_recursive(v, stream, pattern)
-        elif not fnmatch.fnmatch(v.name, pattern) and v.name not in pattern:
+        elif v.name == '/co' or not fnmatch.fnmatch(v.name, pattern) \
+                and v.name not in pattern:
+            # either the correlation options or not requested
             continue
         else:
             stream.append(
@@ -452,6 +442,35 @@ def all_traces_recursive(
     return stream
 
 
+def sort_request(
+        network: str, station: str, channel: str) -> Tuple[str, str, str]:
+    """
+    Brings the combination codes into the order that correlations are saved
+    in. Codes that contain wildcards cannot be compared, so the order is
+    retained if it is not determined by the preceding codes.
+
+    :param network: network (combination)
+    :type network: str
+    :param station: station (combination)
+    :type station: str
+    :param channel: channel (combination)
+    :type channel: str
+    :return: The sorted network, station, and channel combination.
+    :rtype: Tuple[str, str, str]
+    """
+    codes = [code.split('-') for code in (network, station, channel)]
+    for code in codes:
+        if len(code) != 2 or '*' in ''.join(code) or '?' in ''.join(code):
+            break
+        if code[0] < code[1]:
+            break
+        if code[0] > code[1]:
+            codes = [code[::-1] for code in codes]
+            break
+    network, station, channel = ['-'.join(code) for code in codes]
+    return network, station, channel
+
+
 def convert_header_to_hdf5(dataset: h5py.Dataset, header: Stats):
     """
     Convert an :class:`~obspy.core.Stats` object and adds it to the provided
-- 
2.43.0


From f715b058ea00b308921a42bf0bfe43d4f33bcef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:06 +0000
Subject: [PATCH 05/99] fix: do not leave datasets without header behind if
 writing fails

---
 src/seismic/db/corr_hdf5.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/seismic/db/corr_hdf5.py b/src/seismic/db/corr_hdf5.py
index 25708de..3804e32 100644
--- a/src/seismic/db/corr_hdf5.py
+++ b/src/seismic/db/corr_hdf5.py
@@ -135,11 +135,17 @@ class DBHandler(h5py.File):
                 ds = self.create_dataset(
                     path, data=tr.data, compression=self.compression,
                     compression_opts=self.compression_opts)
-                convert_header_to_hdf5(ds, st)
             except ValueError as e:
                 print(e)
                 warnings.warn("The dataset %s is already in file and will be \
 omitted." % path, category=UserWarning)
+                continue
+            try:
+                convert_header_to_hdf5(ds, st)
+            except BaseException:
+                # never leave data without header, it could not be read
+                del self[path]
+                raise
 
     def remove_data(
         self, network: str, station: str, channel: str, tag: str,
-- 
2.43.0


From d081c158afe4355603faa5921bbc61e889804307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:06 +0000
Subject: [PATCH 06/99] fix: looking for existing data if a file does not
 contain the requested tag or pair

---
 src/seismic/db/corr_hdf5.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/seismic/db/corr_hdf5.py b/src/seismic/db/corr_hdf5.py
index 3804e32..da6535f 100644
--- a/src/seismic/db/corr_hdf5.py
+++ b/src/seismic/db/corr_hdf5.py
@@ -304,8 +304,12 @@ omitted." % path, category=UserWarning)
                 return out
             channel = [channel]
         path = '/'.join(path.split('/')[:-3])
+        try:
+            available = list(self[path].keys())
+        except KeyError:
+            return out
         for ch in channel:
-            for match in fnmatch.filter(self[path].keys(), ch):
+            for match in fnmatch.filter(available, ch):
                 out[match] = list(self['/'.join([path, match])].keys())
         return out
 
-- 
2.43.0


From 4fe8eda1b1fa99aa6c068d762141c06854ea2afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:30 +0000
Subject: [PATCH 07/99] fix: ignore all masking steps when comparing
 correlation options

---
 src/seismic/db/corr_hdf5.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/seismic/db/corr_hdf5.py b/src/seismic/db/corr_hdf5.py
index da6535f..1748abe 100644
--- a/src/seismic/db/corr_hdf5.py
+++ b/src/seismic/db/corr_hdf5.py
@@ -552,8 +552,9 @@ def co_to_hdf5(co: dict) -> dict:
         coc['subdivision'].pop('recombine_subdivision', None)
         coc['subdivision'].pop('delete_subdivision', None)
     try:
-        [coc['preProcessing'].remove(step) for step in coc['preProcessing']
-            if 'stream_mask_at_utc' in step['function']]
+        coc['preProcessing'] = [
+            step for step in coc['preProcessing']
+            if 'stream_mask_at_utc' not in step['function']]
     except KeyError:
         pass
     return coc
-- 
2.43.0


From deb20179721b980adbe1d34c0b672e5eef1a347c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:55 +0000
Subject: [PATCH 08/99] fix: lag times of correlations that are flipped are off
 by one sample

---
 src/seismic/correlate/correlate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index f68d34f..8a150a1 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -387,7 +387,8 @@ class Correlator(object):
         if self.rank == 0:
             for ii, (startlag, comb) in enumerate(
                     zip(startlags, self.options['combinations'])):
-                endlag = startlag + len(A[ii, :])/self.options['sampling_rate']
+                endlag = startlag \
+                    + (len(A[ii, :])-1)/self.options['sampling_rate']
                 cst.append(
                     CorrTrace(
                         A[ii], header1=st[comb[0]].stats,
-- 
2.43.0


From a68d1256226b35bbf877f06c0a1666a781d483fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 09/99] fix: stacks contain exactly the windows of one read
 increment

The first window of each read increment was written and stacked together
with the previous increment.
---
 src/seismic/correlate/correlate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 8a150a1..268b461 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -341,8 +341,8 @@ class Correlator(object):
         inv = self.comm.bcast(inv, root=0)
 
         for st, write_flag in self._generate_data():
-            cst.extend(self._pxcorr_inner(st, inv))
             if write_flag:
+                # st is the first window of a new read increment
                 self.logger.debug('Writing Correlations to file.')
                 # Here, we can recombine the correlations for the read_len
                 # size (i.e., stack)
@@ -350,6 +350,7 @@ class Correlator(object):
                 if cst.count():
                     self._write(cst)
                     cst.clear()
+            cst.extend(self._pxcorr_inner(st, inv))
 
         # write the remaining data
         if cst.count():
-- 
2.43.0


From d1971d9d7b0298d72f7f3a9b2720102cefc4b534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:37 +0000
Subject: [PATCH 10/99] fix: do not correlate the data underneath masks

---
 src/seismic/correlate/correlate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 268b461..bb8c94b 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -824,7 +824,8 @@ def st_to_np_array(st: Stream, npts: int) -> Tuple[np.ndarray, Stream]:
     """
     A = np.zeros((st.count(), npts), dtype=np.float32)
     for ii, tr in enumerate(st):
-        A[ii, :tr.stats.npts] = tr.data
+        # masked samples do not contain any information
+        A[ii, :tr.stats.npts] = np.ma.filled(tr.data, 0)
         del tr.data  # Not needed any more, just uses up RAM
     return A, st
 
-- 
2.43.0


From 73a4fcc4827ee4f6d29cd4607cbb71d1061757d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:35 +0000
Subject: [PATCH 11/99] fix: lag axis and normalisation of correlations if the
 padded length is odd

---
 src/seismic/correlate/correlate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index bb8c94b..07421ae 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -737,7 +737,7 @@ class Correlator(object):
         ######################################
         # correlation
         csize = len(self.options['combinations'])
-        irfftsize = (fftsize-1)*2
+        irfftsize = zmsize[1]
         sampleToSave = int(
             np.ceil(
                 corr_args['lengthToSave'] * self.sampling_rate))
@@ -787,7 +787,7 @@ class Correlator(object):
             ######################################
             # frequency domain postProcessing
             #
-            tmp = np.fft.irfft(M).real
+            tmp = np.fft.irfft(M, n=irfftsize).real
 
             # cut the center and do fftshift
             C[ii, :] = np.concatenate(
-- 
2.43.0


From bae940ca5110461fb6eb89f994c67345bef7885f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 12/99] fix: requested combinations also matched stations whose
 code starts alike

---
 src/seismic/correlate/correlate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 07421ae..e9b8fdc 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -869,8 +869,10 @@ def is_in_xcombis(id1: str, id2: str, rcombis: List[str] = None) -> bool:
     tcombi = f'{n1}-{n2}.{s1}-{s2}.{c1}-{c2}'
     tcombi2 = f'{n2}-{n1}.{s2}-{s1}.{c2}-{c1}'
     for combi in rcombis:
-        if fnmatch.fnmatch(tcombi, combi+'*') or fnmatch.fnmatch(
-                tcombi2, combi+'*'):
+        # Without channel, all channels of exactly these stations
+        combi += '.*' if combi.count('.') == 1 else '*'
+        if fnmatch.fnmatch(tcombi, combi) or fnmatch.fnmatch(
+                tcombi2, combi):
             return True
     return False
 
-- 
2.43.0


From 0a56bb5f5a0ee63e01955e1f6fd3a5fd617571ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:47 +0000
Subject: [PATCH 13/99] fix: find existing data of combinations requested by
 channel or in reversed order

---
 src/seismic/correlate/correlate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index e9b8fdc..74218c4 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -1305,7 +1305,9 @@ def compute_network_station_combinations(
                     # Check requested combinations
                     if (
                         combis is not None
-                        and f'{nc[0]}-{nc[1]}.{sc[0]}-{sc[1]}' not in combis
+                        and not is_in_xcombis(
+                            f'{n}.{s}..', f'{n2}.{s2}..',
+                            ['.'.join(c.split('.')[:2]) for c in combis])
                     ):
                         continue
                     netcombs.append('%s-%s' % (nc[0], nc[1]))
-- 
2.43.0


From 342c82d85f04097e229c5b0776130ca1164c5e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:04 +0000
Subject: [PATCH 14/99] fix: storing raw data next to a gap or as a single
 sample

---
 src/seismic/trace_data/waveform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index c9d49f9..5e00521 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -350,7 +350,7 @@ class Store_Client(object):
         # write the data
         for tr in st:
             starttime = tr.stats.starttime
-            while starttime < tr.stats.endtime:
+            while starttime <= tr.stats.endtime:
                 endtime = UTCDateTime(
                     starttime.year, starttime.month, starttime.day) + 86400*1.5
                 endtime = UTCDateTime(endtime.year, endtime.month, endtime.day)
@@ -371,6 +371,8 @@ class Store_Client(object):
             rst = read(filename)
             rst.append(tr)
             rst.merge()
+            # miniseed files cannot hold masked data
+            rst = rst.split()
         else:
             if not os.path.exists(os.path.dirname(filename)):
                 os.makedirs(os.path.dirname(filename))
-- 
2.43.0


From 68404cfa5f78f3eff6d0601669ff756b15931680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 15/99] fix: available times of a station without any files

---
 src/seismic/trace_data/waveform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 5e00521..cc5a7d7 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -813,7 +813,7 @@ def get_day_in_folder(
     else:
         raise NotImplementedError('Type has to be either start or end.')
     julday = None
-    while not julday:
+    while not julday and -len(dirlist) <= i0 < len(dirlist):
         # if the folder is empty julday will stay False
         year = dirlist[i0]
         julday = [i.split('.')[-1] for i in glob.glob(
@@ -825,7 +825,7 @@ def get_day_in_folder(
     # make sure that 200 comes after 3, but before 300
     julday.sort(key=lambda li: (len(li), li))
     if type == 'start':
-        return UTCDateTime(year=int(year), julday=julday[0])
+        return UTCDateTime(year=int(year), julday=int(julday[0]))
     if type == 'end':
         # +24*3600 because else it's the starttime of latest day
         return UTCDateTime(year=int(year), julday=int(julday[-1])) + 24*3600
-- 
2.43.0


From 3b13a0f5d17af5c2516651723c1c5af4855a6e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 16/99] fix: adjacent files of structures that are ordered by
 month or year

---
 src/seismic/trace_data/waveform.py | 44 +++++++++++-------------------
 1 file changed, 16 insertions(+), 28 deletions(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index cc5a7d7..ddfa477 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -13,6 +13,7 @@ Last Modified: Monday, 4th March 2024 11:44:40 am
 
 import fnmatch
 import os
+import calendar
 import datetime
 import glob
 from typing import List, Tuple, Iterator
@@ -698,39 +699,26 @@ def _adjacent_filepattern(
                 elif tpart in ['%U', '%W']:
                     thistime = starttime + inc * datetime.timedelta(days=7)
                 elif tpart in ['%b', '%B', '%m']:
-                    if starttime.month + inc == 0:
-                        thistime = datetime.datetime(starttime.year-1,
-                                                     12,
-                                                     starttime.day,
-                                                     starttime.hour,
-                                                     starttime.minute,
-                                                     starttime.second,
-                                                     starttime.microsecond)
-                    elif starttime.month + inc == 13:
-                        thistime = datetime.datetime(starttime.year+1,
-                                                     1,
-                                                     starttime.day,
-                                                     starttime.hour,
-                                                     starttime.minute,
-                                                     starttime.second,
-                                                     starttime.microsecond)
-                    else:
-                        thistime = datetime.datetime(starttime.year,
-                                                     starttime.month + inc,
-                                                     starttime.day,
-                                                     starttime.hour,
-                                                     starttime.minute,
-                                                     starttime.second,
-                                                     starttime.microsecond)
+                    # month counted from year 0
+                    month = starttime.year*12 + starttime.month - 1 + inc
+                    thistime = _replace_month(
+                        starttime, month // 12, month % 12 + 1)
                 elif tpart in ['%y', '%Y']:
-                    thistime = datetime.datetime(
-                        starttime.year - inc, starttime.month, starttime.day,
-                        starttime.hour, starttime.minute, starttime.second,
-                        starttime.microsecond)
+                    thistime = _replace_month(
+                        starttime, starttime.year + inc, starttime.month)
     fname = _current_filepattern(ID, thistime, fs)
     return fname, thistime
 
 
+def _replace_month(
+        time: datetime.datetime, year: int, month: int) -> datetime.datetime:
+    """Replace year and month. The day is reduced if it does not exist in the
+    new month.
+    """
+    day = min(time.day, calendar.monthrange(year, month)[1])
+    return time.replace(year=year, month=month, day=day)
+
+
 def _current_filepattern(
         ID: str, starttime: datetime.datetime, fs: str) -> str:
     """Return the file name that contains the data sequence that contains
-- 
2.43.0


From 8758f71814253b4f860dd7949af755114b1c67bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:40 +0000
Subject: [PATCH 17/99] fix: replacement of strings in the file structure
 descriptor

---
 src/seismic/trace_data/waveform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index ddfa477..96e5217 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -740,7 +740,7 @@ def _fs_translate(part: str, ID: str, starttime: datetime.datetime) -> str:
     """
     IDlist = ID.split('.')
     if ('(' in part) and (')' in part):
-        trans = re.search('(.*?)', part).group(0)
+        trans = re.search(r'\(.*?\)', part).group(0)
     else:
         trans = None
     # in case there is something to translate remove from the filepart
-- 
2.43.0


From 98ee7776d1efe7002cee447619d4e6c887dafaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:04 +0000
Subject: [PATCH 18/99] fix: second station was ignored if combinations are
 requested by channel

---
 src/seismic/correlate/correlate.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 74218c4..1dcf146 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -225,15 +225,22 @@ class Correlator(object):
         if self.rcombis is None or self.options['combination_method'] \
                 != 'betweenStations':
             return
+        # station and network codes, the combinations can contain channels
+        rstations = []
+        for combi in self.rcombis:
+            netcomb, statcomb = combi.split('.')[:2]
+            rstations.extend(zip(netcomb.split('-'), statcomb.split('-')))
+
+        def requested(net: str, stat: str) -> bool:
+            return any(
+                fnmatch.fnmatch(net, rnet) and fnmatch.fnmatch(stat, rstat)
+                for rnet, rstat in rstations)
+
         self.station = [
-            [n, s] for n, s in self.station if
-            fnmatch.filter(self.rcombis, f'{n}-*.{s}-*') or fnmatch.filter(
-                self.rcombis, f'*-{n}.*-{s}')]
+            [n, s] for n, s in self.station if requested(n, s)]
         # same check for avail_raw_data
         self.avail_raw_data = [
-            [n, s, c] for n, s, c in self.avail_raw_data if
-            fnmatch.filter(self.rcombis, f'{n}-*.{s}-*') or fnmatch.filter(
-                self.rcombis, f'*-{n}.*-{s}')]
+            [n, s, c] for n, s, c in self.avail_raw_data if requested(n, s)]
 
     def find_interstat_dist(self, dis: float):
         """
-- 
2.43.0


From 16455339aee8712b24985a9d310b15bb8ff52418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:13 +0000
Subject: [PATCH 19/99] fix: normalisation of correlations counts the Nyquist
 frequency twice

---
 src/seismic/correlate/correlate.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 1dcf146..2be1fa6 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -771,18 +771,13 @@ class Correlator(object):
             offset -= roffset
             # normalization factor of fft correlation
             if corr_args['normalize_correlation']:
-                norm = (
-                    np.sqrt(
-                        2.*np.sum(B[self.options[
-                            'combinations'][ii][0], :]
-                            * B[self.options['combinations'][ii][0], :].conj())
-                        - B[self.options['combinations'][ii][0], 0]**2)
-                    * np.sqrt(
-                        2.*np.sum(B[self.options[
-                            'combinations'][ii][1], :]
-                            * B[self.options['combinations'][ii][1], :].conj())
-                        - B[self.options['combinations'][ii][1], 0]**2)
-                    / irfftsize).real
+                norm = 1./irfftsize
+                for jj in self.options['combinations'][ii]:
+                    energy = 2.*np.sum(B[jj, :]*B[jj, :].conj()) - B[jj, 0]**2
+                    if irfftsize % 2 == 0:
+                        # The Nyquist frequency exists only once as well
+                        energy -= B[jj, -1]**2
+                    norm *= np.sqrt(energy.real)
             else:
                 norm = 1.
 
-- 
2.43.0


From bcc5055dd083eec4ed95236cf36a79ff36651667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:24 +0000
Subject: [PATCH 20/99] fix: wildcard requests returned stations whose code
 starts alike

---
 src/seismic/db/corr_hdf5.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/seismic/db/corr_hdf5.py b/src/seismic/db/corr_hdf5.py
index 1748abe..b056a4f 100644
--- a/src/seismic/db/corr_hdf5.py
+++ b/src/seismic/db/corr_hdf5.py
@@ -268,7 +268,12 @@ omitted." % path, category=UserWarning)
         # the deepest group whose name does not contain any wildcards
         path = re.split(r'[*?]', path)[0]
         path = path[:path.rindex('/')+1]
-        return all_traces_recursive(self[path], CorrStream(), pattern)
+        st = all_traces_recursive(self[path], CorrStream(), pattern)
+        # wildcards in the pattern can extend over several codes
+        return st and CorrStream([tr for tr in st if all(
+            fnmatch.fnmatch(tr.stats[key], code) for key, code in (
+                ('network', network), ('station', station),
+                ('channel', channel)))])
 
     def get_available_starttimes(
         self, network: str, station: str, tag: str,
-- 
2.43.0


From 51389b05624fa5a99492f2e94fbf7598d411e2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:44 +0000
Subject: [PATCH 21/99] fix: wildcards in tags also matched parts of codes

---
 src/seismic/db/corr_hdf5.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/seismic/db/corr_hdf5.py b/src/seismic/db/corr_hdf5.py
index b056a4f..2f9de7c 100644
--- a/src/seismic/db/corr_hdf5.py
+++ b/src/seismic/db/corr_hdf5.py
@@ -246,6 +246,17 @@ omitted." % path, category=UserWarning)
         # Make sure the request is structured correctly
         network, station, channel = sort_request(network, station, channel)
 
+        if '*' in tag or '?' in tag:
+            # one tag after the other as its wildcards must not match codes
+            st = CorrStream()
+            for match in sorted(fnmatch.filter(self.keys() - {'co'}, tag)):
+                try:
+                    st.extend(self.get_data(
+                        network, station, channel, match, corr_start,
+                        corr_end))
+                except KeyError:
+                    continue
+            return st
         if isinstance(corr_start, UTCDateTime):
             corr_start = corr_start.format_fissures()
         else:
-- 
2.43.0


From 68a2dd14bc0cfc8715ddda01b93b5d4d8442f6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:55 +0000
Subject: [PATCH 22/99] fix: database could not be used after interruption
 while writing

Options without content, files without options, and start times without
data made following runs fail or skip data.
---
 src/seismic/db/corr_hdf5.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/seismic/db/corr_hdf5.py b/src/seismic/db/corr_hdf5.py
index 2f9de7c..2e3355f 100644
--- a/src/seismic/db/corr_hdf5.py
+++ b/src/seismic/db/corr_hdf5.py
@@ -88,14 +88,19 @@ class DBHandler(h5py.File):
                         f'\n{diff}'
                     )
             except KeyError:
-                self.add_corr_options(co)
+                if mode != 'r':
+                    self.add_corr_options(co)
 
     def _close(self):
         self.close()
 
     def add_corr_options(self, co: dict):
         sco = str(co_to_hdf5(co))
-        ds = self.create_dataset('co', data=np.empty(1))
+        try:
+            ds = self.create_dataset('co', data=np.empty(1))
+        except ValueError:
+            # An interrupted run has left it without its content
+            ds = self['co']
         ds.attrs['co'] = sco
 
     def add_correlation(
@@ -143,8 +148,12 @@ omitted." % path, category=UserWarning)
             try:
                 convert_header_to_hdf5(ds, st)
             except BaseException:
-                # never leave data without header, it could not be read
+                # never leave data without header, it could not be read,
+                # nor a start time without data
                 del self[path]
+                parent = os.path.dirname(path)
+                if not len(self[parent]):
+                    del self[parent]
                 raise
 
     def remove_data(
-- 
2.43.0


From 0e20963e1119e4415761014166f24d152b442c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:56 +0000
Subject: [PATCH 23/99] fix: dead traces disabled spectral whitening of all
 traces of a process

---
 src/seismic/correlate/preprocessing_fd.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/seismic/correlate/preprocessing_fd.py b/src/seismic/correlate/preprocessing_fd.py
index f2f59d8..af20fc7 100644
--- a/src/seismic/correlate/preprocessing_fd.py
+++ b/src/seismic/correlate/preprocessing_fd.py
@@ -106,14 +106,12 @@ def spectralWhitening(B: np.ndarray, args: dict, params) -> np.ndarray:
             for ii in np.arange(0, B.shape[0], 3):
                 absB[ii:ii+3, :] = np.tile(
                     np.atleast_2d(np.mean(absB[ii:ii+3, :], axis=0)), [3, 1])
-    with np.errstate(invalid='raise'):
-        try:
-            B = np.true_divide(B, absB)
-        except FloatingPointError as e:
-            errargs = np.argwhere(absB == 0)
-            # Report error where there is zero divides for a non-zero freq
-            if not np.all(errargs[:, 0] == 0):
-                logging.debug(f'{e} {errargs}')
+    # Dead traces and empty frequencies remain zero. They must not keep the
+    # others from being whitened.
+    zero = absB == 0
+    if np.any(zero):
+        logging.debug(f'{zero.sum()} spectral amplitudes are zero.')
+    B = np.divide(B, absB, out=np.zeros_like(B), where=~zero)
     # Set zero frequency component to zero
     B[:, 0] = 0.j
 
-- 
2.43.0


From 6de6fa5c4f8611fe5e3c57e67a401109e532e7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:02 +0000
Subject: [PATCH 24/99] fix: joint spectral whitening depended on the number of
 processes

---
 src/seismic/correlate/correlate.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 2be1fa6..be386df 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -684,7 +684,13 @@ class Correlator(object):
         # time domain processing
         # map of traces on processes
         ntrc = A.shape[0]
-        pmap = np.arange(ntrc)*self.psize/ntrc
+        corr_args = self.options['corr_args']
+        pmap = np.arange(ntrc)
+        if any('joint_norm' in proc['args']
+               for proc in corr_args['FDpreProcessing']):
+            # sets of three traces have to be on the same process
+            pmap -= pmap % 3
+        pmap = pmap*self.psize/ntrc
         # This step was not in the original but is necessary for it to work?
         # maybe a difference in an old python/np version?
         pmap = pmap.astype(np.int32)
@@ -693,7 +699,6 @@ class Correlator(object):
         ind = pmap == self.rank
 
     ######################################
-        corr_args = self.options['corr_args']
         # time domain pre-processing
         params = {}
         for key in list(corr_args.keys()):
-- 
2.43.0


From fb67f356f4d30628fb6c9462a3e6285fefa858c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:29 +0000
Subject: [PATCH 25/99] fix: muting with extended gaps could mute everything

---
 src/seismic/correlate/preprocessing_td.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/preprocessing_td.py b/src/seismic/correlate/preprocessing_td.py
index db8c092..c770ba8 100644
--- a/src/seismic/correlate/preprocessing_td.py
+++ b/src/seismic/correlate/preprocessing_td.py
@@ -232,7 +232,8 @@ def mute(A: np.ndarray, args: dict, params: dict) -> np.ndarray:
         for ind in range(A.shape[0]):
             mask[ind, :] = np.convolve(mask[ind, :], tap, mode='same')
         nmask = np.ones_like(D)
-        nmask[mask < 1.] = 0
+        # at least one of ntap samples muted
+        nmask[mask < 1. - .5/ntap] = 0
     else:
         nmask = mask
 
-- 
2.43.0


From 2cca02d80de077a88d3697a1d584078b52e9288f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:27 +0000
Subject: [PATCH 26/99] fix: slicing of correlation matrices with one row

---
 src/seismic/correlate/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 66403ee..f68283e 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -818,7 +818,7 @@ class CorrBulk(object):
             ii = np.logical_and(
                 np.array(self.stats.corr_start) >= starttime,
                 np.array(self.stats.corr_end) <= endtime)
-        ii = np.squeeze(ii)
+        ii = np.atleast_1d(np.squeeze(ii))
         if not len(np.nonzero(ii)[0]):
             warnings.warn(
                 'No slices found in the requested time. Returning empty arr.')
-- 
2.43.0


From 81a1ab571edc64a7e9862a99711b8aaf6120ac89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:52 +0000
Subject: [PATCH 27/99] fix: wrong error if no correlations are selected

---
 src/seismic/correlate/stream.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index f68283e..c9b71eb 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -924,8 +924,8 @@ class CorrStream(Stream):
             st = st.select_corr_time(times[0], times[1])
         if not st.count():
             raise ValueError(
-                f'CorrStream contains no data between {times[0]} and '
-                f'{times[1]}.')
+                'CorrStream contains no data' + (
+                    f' between {times[0]} and {times[1]}.' if times else '.'))
         A = np.empty((st.count(), st[0].stats.npts))
         statlist = []
         # Double check sampling rate
-- 
2.43.0


From f858ce53974486689cabffbc8111883c9525071e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:18 +0000
Subject: [PATCH 28/99] fix: headers of resampled correlation matrices

---
 src/seismic/monitor/post_corr_process.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index ecf5072..99f6ce4 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -282,11 +282,13 @@ def corr_mat_resample(
     # new corr_data matrix
     nmat = np.empty([len(stime), data.shape[1]])
     nmat.fill(np.nan)
+    first = []
 
     for ii in range(len(stime)):
         # index of measurements between start_time[ii] and end_time[ii]
         ind = np.nonzero((otime >= stime[ii]) * (otime < etime[ii]))
         # ind is a list(tuple) for dimensions
+        first.append(ind[0][0] if len(ind[0]) else 0)
         if len(ind[0]) == 1:
             # one measurement found
             nmat[ii, :] = data[ind[0], :]
@@ -299,6 +301,12 @@ def corr_mat_resample(
 
     stats['corr_start'] = [UTCDateTime(st) for st in stime]
     stats['corr_end'] = [UTCDateTime(et) for et in etime]
+    # headers that exist for each trace have to have the new length, too
+    for key in ('location', 'channel'):
+        if isinstance(stats.get(key), (list, np.ndarray)):
+            stats[key] = [stats[key][ii] for ii in first]
+    if 'ntrcs' in stats:
+        stats['ntrcs'] = data.shape[0]
 
     return data, stats
 
-- 
2.43.0


From 6a79b96c2881daaf594471f354acf6bb891e3564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:02 +0000
Subject: [PATCH 29/99] fix: lag of trimmed correlations

---
 src/seismic/monitor/trim.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/seismic/monitor/trim.py b/src/seismic/monitor/trim.py
index b1bfedb..89c9999 100644
--- a/src/seismic/monitor/trim.py
+++ b/src/seismic/monitor/trim.py
@@ -41,9 +41,15 @@ def corr_mat_trim(
     """
 
     # fetch indices of start and end
-    start = int(
-        np.floor((starttime-stats['start_lag'])*stats['sampling_rate']))
-    end = int(np.floor((endtime-stats['start_lag'])*stats['sampling_rate']))
+    # (the lags may be affected by rounding errors)
+    tol = 1e-3
+    shift = (starttime-stats['start_lag'])*stats['sampling_rate']
+    start = int(np.floor(shift + tol))
+    end = int(np.floor(
+        (endtime-stats['start_lag'])*stats['sampling_rate'] + tol))
+    if np.abs(shift - start) > tol:
+        # There is no sample at the requested time
+        starttime = stats['start_lag'] + start/stats['sampling_rate']
 
     # check range
     if start < 0:
-- 
2.43.0


From daedbc82100ea79a7a10e4daf778725e83f6897f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:46 +0000
Subject: [PATCH 30/99] fix: taper of the centre if lag zero is at the edge or
 outside

---
 src/seismic/monitor/post_corr_process.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 99f6ce4..9009a92 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -581,17 +581,17 @@ def corr_mat_taper_center(
     taper[-slope_length:] = tap[:slope_length]
 
     # calculate start end end points of the taper
-    start = int(-stats['start_lag']*stats['sampling_rate'] - length/2)
+    start = int(np.round(
+        -stats['start_lag']*stats['sampling_rate'] - length/2))
     if start < 0:
         taper = taper[np.absolute(start):]
         start = 0
 
-    end = start + length
-    if end > stats['npts']:
-        end = stats['npts']
-        taper = taper[0:end - start]
+    # The trace does not necessarily contain the whole taper
+    taper = taper[:max(stats['npts'] - start, 0)]
+    end = start + len(taper)
     # apply taper
-    data[:, start:end + 1] *= \
+    data[:, start:end] *= \
         np.tile(np.atleast_2d(taper), (data.shape[0], 1))
 
     return data
-- 
2.43.0


From 0cb5c02c7204d090cf7cd3f0f4b530055a254ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:26 +0000
Subject: [PATCH 31/99] fix: mirroring of correlations with inexact lags

---
 src/seismic/monitor/post_corr_process.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 9009a92..47d1281 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -468,7 +468,9 @@ def corr_mat_mirror(data: np.ndarray, stats: CorrStats) -> Tuple[
     :rtype: Tuple[np.ndarray, CorrStats]
     """
 
-    zero_sample = -(stats['start_lag']*stats['sampling_rate'])
+    # The lags may be affected by rounding errors
+    zero_sample = np.round(
+        -(stats['start_lag']*stats['sampling_rate']), 3)
 
     if zero_sample <= 0:
         print('No data present for mirroring: starttime > zerotime.')
@@ -478,7 +480,7 @@ def corr_mat_mirror(data: np.ndarray, stats: CorrStats) -> Tuple[
         return data, stats
     if np.fmod(zero_sample, 1) != 0:
         print('need to shift for mirroring')
-        return 0
+        return data, stats
 
     # estimate size of mirrored array
     acausal_samples = int(zero_sample + 1)
-- 
2.43.0


From f0243716e4d60ee2f2c870bf1755cc87c141aa16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:06 +0000
Subject: [PATCH 32/99] fix: velocity change estimates changed the header of
 the correlations

---
 src/seismic/monitor/post_corr_process.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 47d1281..6ef2d26 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -877,6 +877,7 @@ def corr_mat_stretch(
     """
 
     data = deepcopy(cdata)
+    stats = deepcopy(stats)
 
     dta = -stats['start_lag']
     dte = stats['end_lag']
@@ -979,6 +980,7 @@ def corr_mat_shift(
     """
 
     data = deepcopy(data)
+    stats = deepcopy(stats)
 
     dta = -stats.start_lag
     dte = stats.end_lag
-- 
2.43.0


From d79d160d6c7f879f675635609af33b61fb731783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:47 +0000
Subject: [PATCH 33/99] fix: selection of a row with a numpy integer

---
 src/seismic/correlate/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index c9b71eb..8965b6a 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -72,7 +72,7 @@ class CorrBulk(object):
     def __getitem__(self, item):
         list_keys = ['corr_start', 'corr_end', 'location', 'channel']
         stats_out = deepcopy(self.stats)
-        if isinstance(item, int):
+        if isinstance(item, (int, np.integer)):
             for key in list_keys:
                 value = stats_out[key]
                 if isinstance(value, list) or isinstance(value, np.ndarray):
-- 
2.43.0


From c36f1f4f65a56b5f99f98a5efe4784846f4cba28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:48 +0000
Subject: [PATCH 34/99] fix: headers of correlation matrices that are read from
 files

---
 src/seismic/correlate/stream.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 8965b6a..a6d93ee 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -60,6 +60,8 @@ class CorrBulk(object):
         """
         self.data = A
         if stats:
+            if not isinstance(stats, Stats):
+                stats = CorrStats(stats)
             self.stats = stats
         elif statlist:
             self.stats = convert_statlist_to_bulk_stats(statlist)
@@ -836,6 +838,13 @@ def read_corr_bulk(path: str) -> CorrBulk:
     """
     loaded = np.load(path)
     stats = m3ut.load_header_from_np_array(loaded)
+    # One value per correlation, even if there is only one
+    for key in ('corr_start', 'corr_end'):
+        if isinstance(stats.get(key), UTCDateTime):
+            stats[key] = [stats[key]]
+    for key, value in stats.items():
+        if isinstance(value, (np.ndarray, np.generic)):
+            stats[key] = value.tolist()
     return CorrBulk(loaded['data'], stats=stats)
 
 
-- 
2.43.0


From afdce3614170603c7866f442a73c5632fa317bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:06 +0000
Subject: [PATCH 35/99] fix: resampling to a single trace if the last
 correlation does not end last

---
 src/seismic/monitor/post_corr_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 6ef2d26..17ea61b 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -271,7 +271,7 @@ def corr_mat_resample(
     else:
         if len(start_times) == 1:
             # there is only one start_time given and no end_time => average all
-            etime = np.array([stats['corr_end'][-1].timestamp])
+            etime = np.array([max(stats['corr_end']).timestamp])
         else:
             stime = np.array(stime)  # Cannot be a list for this operation
             etime = stime + (stime[1] - stime[0])
-- 
2.43.0


From 67bff4723c3a13b7bcb8d5357f98968720bfb2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 36/99] fix: selection of times of the day at and across
 midnight

---
 src/seismic/correlate/stream.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index a6d93ee..6a76014 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -16,7 +16,6 @@ from typing import Iterator, List, Tuple, Optional
 from copy import deepcopy
 import warnings
 from matplotlib import pyplot as plt
-import datetime
 
 
 import numpy as np
@@ -1105,11 +1104,20 @@ class CorrStream(Stream):
         :rtype: CorrStream
         """
         cst_select = CorrStream()
-        start = datetime.time(*start)
-        end = datetime.time(*end)
+        # seconds of the day
+        start = start[0]*3600 + start[1]*60 + start[2]
+        end = end[0]*3600 + end[1]*60 + end[2]
+        if end <= start:
+            # the requested window ends on the following day
+            end += 24*3600
         for tr in self:
-            if tr.stats.corr_start.time >= start \
-                    and tr.stats.corr_end.time <= end:
+            t0 = tr.stats.corr_start
+            s = t0 - UTCDateTime(year=t0.year, julday=t0.julday)
+            if s < start:
+                s += 24*3600
+            # corr_end may be on the following day, too
+            e = s + (tr.stats.corr_end - t0)
+            if e <= end:
                 if not exclude:
                     cst_select.append(tr)
             else:
-- 
2.43.0


From e481afbf5c5ebb0ca4da1ec637eacabac588f81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:40 +0000
Subject: [PATCH 37/99] fix: end of stacks of correlations with different
 lengths

---
 src/seismic/correlate/stream.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 6a76014..fdbffc7 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -1243,7 +1243,7 @@ class CorrStream(Stream):
         if not starttime:
             starttime = self[0].stats.corr_start
         if not endtime:
-            endtime = self[-1].stats.corr_end
+            endtime = max(tr.stats.corr_end for tr in self)
         outst = CorrStream()
         if stack_len == 'daily':
             starttime = UTCDateTime(
@@ -1644,7 +1644,7 @@ def stack_st(st: CorrStream, weight: str, norm: bool = True) -> CorrTrace:
     """
     st.sort(keys=['corr_start'])
     stats = st[0].stats.copy()
-    stats['corr_end'] = st[-1].stats['corr_end']
+    stats['corr_end'] = max(tr.stats['corr_end'] for tr in st)
     st.sort(keys=['npts'])
     npts = st[-1].stats.npts
     stack = []
-- 
2.43.0


From a820f5f69c976f3922ca5527abfeb83e10d9a36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 38/99] fix: headers of results that are read from files

---
 src/seismic/correlate/stream.py |  9 +--------
 src/seismic/monitor/dv.py       |  8 +++++---
 src/seismic/monitor/wfc.py      |  9 ++++-----
 src/seismic/utils/miic_utils.py | 21 +++++++++++++++++++++
 4 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index fdbffc7..2a212f6 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -836,14 +836,7 @@ def read_corr_bulk(path: str) -> CorrBulk:
     :rtype: CorrBulk
     """
     loaded = np.load(path)
-    stats = m3ut.load_header_from_np_array(loaded)
-    # One value per correlation, even if there is only one
-    for key in ('corr_start', 'corr_end'):
-        if isinstance(stats.get(key), UTCDateTime):
-            stats[key] = [stats[key]]
-    for key, value in stats.items():
-        if isinstance(value, (np.ndarray, np.generic)):
-            stats[key] = value.tolist()
+    stats = m3ut.bulk_header(m3ut.load_header_from_np_array(loaded))
     return CorrBulk(loaded['data'], stats=stats)
 
 
diff --git a/src/seismic/monitor/dv.py b/src/seismic/monitor/dv.py
index 72dd140..c52f4e4 100644
--- a/src/seismic/monitor/dv.py
+++ b/src/seismic/monitor/dv.py
@@ -243,7 +243,7 @@ def read_dv(path: str) -> DV:
                 f'No files that adhere the pattern {path} found.')
         return dvl
     loaded = np.load(path)
-    stats = CorrStats(mu.load_header_from_np_array(loaded))
+    stats = CorrStats(mu.bulk_header(mu.load_header_from_np_array(loaded)))
     # to check that compatibility works
     vt = loaded['vt_array']
     while not isinstance(vt, str):
@@ -257,8 +257,10 @@ def read_dv(path: str) -> DV:
             freq_max=float(loaded['freq_max']),
             tw_start=float(loaded['tw_start']),
             tw_len=float(loaded['tw_len']))
-        dv_processing['sides'] = loaded.get('sides', 'unknown')
-        dv_processing['aligned'] = loaded.get('aligned', False)
+        dv_processing['sides'] = np.asarray(
+            loaded.get('sides', 'unknown')).item()
+        dv_processing['aligned'] = np.asarray(
+            loaded.get('aligned', False)).item()
     except KeyError:
         dv_processing = {}
     return DV(
diff --git a/src/seismic/monitor/wfc.py b/src/seismic/monitor/wfc.py
index 9447c13..0cd7888 100644
--- a/src/seismic/monitor/wfc.py
+++ b/src/seismic/monitor/wfc.py
@@ -157,13 +157,12 @@ def read_wfc(path: str) -> WFC:
         else:
             stats[k] = v
     wfc_processing = {
-        'tw_start': stats['tw_start'],
-        'tw_len': stats['tw_len'],
-        'freq_min': stats['freq_min'],
-        'freq_max': stats['freq_max']
+        k: np.asarray(stats[k]).item()
+        for k in ('tw_start', 'tw_len', 'freq_min', 'freq_max')
     }
     wfc = WFC(
-        d, stats=CorrStats(mu.load_header_from_np_array(stats)),
+        d, stats=CorrStats(
+            mu.bulk_header(mu.load_header_from_np_array(stats))),
         wfc_processing=wfc_processing)
     wfc.av = av
     wfc.mean = mean
diff --git a/src/seismic/utils/miic_utils.py b/src/seismic/utils/miic_utils.py
index 180af33..45265f7 100644
--- a/src/seismic/utils/miic_utils.py
+++ b/src/seismic/utils/miic_utils.py
@@ -293,6 +293,27 @@ def load_header_from_np_array(array_dict: dict) -> dict:
     return d
 
 
+def bulk_header(header: dict) -> dict:
+    """
+    Restore the types in the header of an object with several rows (e.g.,
+    :class:`~seismic.correlate.stream.CorrBulk` or
+    :class:`~seismic.monitor.dv.DV`) that was loaded from an npz file: lists
+    with one time per row (even if there is only one) and native types rather
+    than arrays.
+
+    :param header: Return value of :func:`load_header_from_np_array`
+    :type header: dict
+    :return: The altered header
+    :rtype: dict
+    """
+    for k, v in header.items():
+        if k in t_keys and isinstance(v, UTCDateTime):
+            header[k] = [v]
+        elif isinstance(v, (np.ndarray, np.generic)):
+            header[k] = v.tolist()
+    return header
+
+
 def convert_utc_to_timestamp(
         utcdt: UTCDateTime or List[UTCDateTime]) -> np.ndarray:
     """
-- 
2.43.0


From 73a2336d2b5bff2de7689ddc10a44436e9ee64c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:05 +0000
Subject: [PATCH 39/99] fix: measurements for a single correlation keep their
 dimension

---
 src/seismic/monitor/post_corr_process.py |  6 ++---
 src/seismic/monitor/stretch_mod.py       | 28 ++++++++++++++----------
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 17ea61b..d245706 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -1202,13 +1202,13 @@ def measure_shift(
     # assemble results
     dt = {
         'stats': stats,
-        'corr': np.squeeze(corr),
-        'value': np.squeeze(value),
+        'corr': corr,
+        'value': value,
         'second_axis': shifts,
         'value_type': np.array(['shift']),
         'method': np.array(['absolute_shift'])}
     if return_sim_mat:
-        dt.update({'sim_mat': np.squeeze(sim_mat)})
+        dt.update({'sim_mat': sim_mat})
     else:
         dt.update({'sim_mat': None})
     return DV(**dt)
diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index f9e91a5..46802fb 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -329,14 +329,18 @@ def velocity_change_estimate(
         # to one of the two stretch_range limits
         dt[ii, np.isnan(tmp_corr_vect)] = np.nan
 
-    dv = {'corr': np.squeeze(corr),
-          'value': np.squeeze(dt),
+    # there is no dimension for a single time window, but always one for rows
+    if len(tw) == 1:
+        corr, dt, sim_mat = corr[0], dt[0], sim_mat[..., 0]
+
+    dv = {'corr': corr,
+          'value': dt,
           'second_axis': strvec,
           'value_type': 'stretch',
           'method': 'single_ref'}
 
     if return_sim_mat:
-        dv.update({'sim_mat': np.squeeze(sim_mat)})
+        dv.update({'sim_mat': sim_mat})
 
     return dv
 
@@ -761,10 +765,10 @@ def estimate_reftr_shifts_from_dt_corr(
                        if reftr != reftr1]
             for reftr2 in ref_idx:
                 ccorr, sshift = est_shift_from_dt_corr(
-                    np.squeeze(multi_ref_panel[reftr1]['value']),
-                    np.squeeze(multi_ref_panel[reftr2]['value']),
-                    np.squeeze(multi_ref_panel[reftr1]['corr']),
-                    np.squeeze(multi_ref_panel[reftr2]['corr']))
+                    multi_ref_panel[reftr1]['value'],
+                    multi_ref_panel[reftr2]['value'],
+                    multi_ref_panel[reftr1]['corr'],
+                    multi_ref_panel[reftr2]['corr'])
                 corr.append(ccorr)
                 shift.append(sshift)
 
@@ -799,7 +803,7 @@ def estimate_reftr_shifts_from_dt_corr(
         m = np.around(m / delta)  # , out=np.zeros_like(m, dtype='int32'))
         m = np.require(m, dtype='int32')
 
-        row, col = np.squeeze(multi_ref_panel['reftr_0']['sim_mat']).shape
+        row, col = multi_ref_panel['reftr_0']['sim_mat'].shape
 
         stmp = np.zeros((row, col, n_ref))
 
@@ -807,7 +811,7 @@ def estimate_reftr_shifts_from_dt_corr(
         for (i, reftr) in enumerate(np.sort(list(multi_ref_panel.keys()))):
 
             stmp[:, :, i] = \
-                np.roll(np.squeeze(multi_ref_panel[reftr]['sim_mat']),
+                np.roll(multi_ref_panel[reftr]['sim_mat'],
                         m[i],
                         axis=1)
 
@@ -1091,14 +1095,14 @@ def time_shift_estimate(
         sim_mat = dtdict['sim_mat']
 
     # create the result dictionary
-    dt = {'corr': np.squeeze(corr),
-          'value': np.squeeze(shift),
+    dt = {'corr': corr,
+          'value': shift,
           'second_axis': shifts,
           'value_type': np.array(['shift']),
           'method': np.array(['time_shift'])}
 
     if return_sim_mat:
-        dt.update({'sim_mat': np.squeeze(sim_mat)})
+        dt.update({'sim_mat': sim_mat})
 
     return dt
 
-- 
2.43.0


From 32a0207944d31f04d3a476fad587447351bd2951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 40/99] fix: multi-reference velocity changes without data and
 at the ends of the axis

---
 src/seismic/monitor/stretch_mod.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index 46802fb..d32aa8c 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -814,6 +814,11 @@ def estimate_reftr_shifts_from_dt_corr(
                 np.roll(multi_ref_panel[reftr]['sim_mat'],
                         m[i],
                         axis=1)
+            # Values do not reenter on the other side of the axis
+            if m[i] > 0:
+                stmp[:, :m[i], i] = np.nan
+            elif m[i] < 0:
+                stmp[:, m[i]:, i] = np.nan
 
         # Create a msked array to evaluate the mean
         stmp_masked = np.ma.masked_array(
@@ -830,6 +835,8 @@ def estimate_reftr_shifts_from_dt_corr(
         dt = np.argmax(bsimmat, axis=1)
 
         dt = stretch_vect[dt]
+        # there is no value for rows without data
+        dt[np.ma.getmaskarray(corr)] = np.nan
 
         # Remove the mask
         bsimmat = bsimmat.filled(np.nan)
-- 
2.43.0


From 61b103270356e0d436496d9724a6c8e824cb2710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 41/99] fix: several lapse windows for the stretch measurement

---
 src/seismic/monitor/stretch_mod.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index d32aa8c..343cb18 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -944,7 +944,7 @@ def multi_ref_vchange_and_align(
         print(
             "The multi-reference vchange evaluation cannot handle multiple "
             "time windows. Only the first time-window will be used")
-        tw = tw[0]
+        tw = tw[:1]
 
     multi_ref_panel = multi_ref_vchange(
         corr_data, ref_trs, tw=tw, stretch_range=stretch_range,
-- 
2.43.0


From 4e45c62cc211166b6181d760a3cee412d955deb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 42/99] fix: stretch the reference around zero lag time

---
 src/seismic/monitor/post_corr_process.py |  8 +++++++-
 src/seismic/monitor/stretch_mod.py       | 14 +++++++++++---
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index d245706..6cd0ded 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -877,6 +877,7 @@ def corr_mat_stretch(
     """
 
     data = deepcopy(cdata)
+    untrimmed = stats
     stats = deepcopy(stats)
 
     dta = -stats['start_lag']
@@ -896,8 +897,13 @@ def corr_mat_stretch(
     # create or extract references
     if ref_trc is None:
         ref_trc = corr_mat_extract_trace(data, stats)
-    if ref_tr_stats is None:
         ref_tr_stats = stats
+    elif ref_tr_stats is None:
+        if np.shape(ref_trc)[-1] == data.shape[1]:
+            ref_tr_stats = stats
+        else:
+            # same lag times as the matrix had before it was trimmed
+            ref_tr_stats = untrimmed
 
     dv = multi_ref_vchange_and_align(
         data, ref_trc, tw=tw, stretch_range=stretch_range,
diff --git a/src/seismic/monitor/stretch_mod.py b/src/seismic/monitor/stretch_mod.py
index 343cb18..1d242c6 100644
--- a/src/seismic/monitor/stretch_mod.py
+++ b/src/seismic/monitor/stretch_mod.py
@@ -453,10 +453,18 @@ def time_stretch_estimate(
     time_facs = np.exp(-stretches)
 
     # time axis
-    if sides != 'single':
-        time_idx = np.arange(len(ref_trc)) - (len(ref_trc) - 1.) / 2.
-    else:
+    if sides == 'single':
+        if ref_tr_trim is not None:
+            # zero lag time has to be on the first sample
+            ref_trc, ref_tr_stats = corr_mat_trim(
+                ref_trc, deepcopy(ref_tr_stats), 0, ref_tr_stats['end_lag'])
         time_idx = np.arange(len(ref_trc))
+    elif ref_tr_trim is not None:
+        # lag times are known, zero can be anywhere on the reference
+        time_idx = np.arange(len(ref_trc)) + np.round(
+            ref_tr_stats['start_lag'] * ref_tr_stats['sampling_rate'], 6)
+    else:
+        time_idx = np.arange(len(ref_trc)) - (len(ref_trc) - 1.) / 2.
 
     # create the array to hold the shifted traces
     ref_stretch = np.zeros((len(stretches), len(ref_trc)))
-- 
2.43.0


From 6af522942de3846f684f68c7f72f429b8df19001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 43/99] fix: default window of shift measurements on asymmetric
 lag times

---
 src/seismic/monitor/post_corr_process.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 6cd0ded..f251e1a 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -1156,6 +1156,10 @@ def measure_shift(
     # If no time window is given use the whole range - shift_range
     if tw is None:
         tw = [[stats.start_lag + shift_range, stats.end_lag - shift_range]]
+        if sides == 'both':
+            # has to fit on both sides
+            twlim = min(-tw[0][0], tw[0][1])
+            tw = [[-twlim, twlim]]
 
     # trim to required lapse time range
     twmax = np.max(np.array(tw)[:]) + shift_range
-- 
2.43.0


From 537012e2937b4861ce91dd49664613e3221a80d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 44/99] fix: median reference with unavailable correlations

---
 src/seismic/monitor/post_corr_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index f251e1a..5ad30f9 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -761,7 +761,7 @@ def corr_mat_extract_trace(
     elif method == 'median':
         mm = np.ma.masked_array(
             ndata, np.isnan(ndata))
-        out = np.median(mm, 0).filled(np.nan)
+        out = np.ma.median(mm, 0).filled(np.nan)
     elif method == 'norm_mean':
         # normalize the matrix
         ndata = corr_mat_normalize(ndata, stats, normtype='absmax')
-- 
2.43.0


From 66806790fcf4ef346b72838eb0c62736ba01aedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 45/99] fix: similarity percentile reference of few or no
 correlations

---
 src/seismic/monitor/post_corr_process.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 5ad30f9..18f4d03 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -784,10 +784,16 @@ def corr_mat_extract_trace(
             cor[ind] = (
                 np.dot(ndata[ind, :], mean_tr) / np.sqrt(cm_sq[ind] * tm_sq))
         # estimate the percentile excluding nans
+        if np.all(np.isnan(cor)):
+            # nothing available
+            return mean_tr
         tres = np.percentile(cor[~np.isnan(cor)], percentile)
         # find the traces that agree with the requested percentile and calc
         # their mean
         ind = cor > tres
+        if not np.any(ind):
+            # all traces agree equally well
+            ind = cor == tres
         out = np.mean(ndata[ind, :], 0)
     else:
         raise ValueError("Method '%s' not defined." % method)
-- 
2.43.0


From 2b01107af490575e4bc19ec256b5eaa47cb8c6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 46/99] fix: velocity changes without length of the lapse
 window or travel time

---
 src/seismic/monitor/dv.py      |  2 +-
 src/seismic/monitor/monitor.py | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/seismic/monitor/dv.py b/src/seismic/monitor/dv.py
index c52f4e4..e430b8d 100644
--- a/src/seismic/monitor/dv.py
+++ b/src/seismic/monitor/dv.py
@@ -256,7 +256,7 @@ def read_dv(path: str) -> DV:
             freq_min=float(loaded['freq_min']),
             freq_max=float(loaded['freq_max']),
             tw_start=float(loaded['tw_start']),
-            tw_len=float(loaded['tw_len']))
+            tw_len=float(loaded['tw_len']) if 'tw_len' in loaded else None)
         dv_processing['sides'] = np.asarray(
             loaded.get('sides', 'unknown')).item()
         dv_processing['aligned'] = np.asarray(
diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index f7cdf73..7110fe8 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -197,6 +197,7 @@ class Monitor(object):
 
         tw_start = self.options['dv']['tw_start']
 
+        d = None
         if self.options['dv']['compute_tt']:
             if not hasattr(cst[0].stats, 'dist'):
                 warnings.warn(
@@ -214,7 +215,8 @@ class Monitor(object):
                 self.logger.info(
                     f'Computed travel time for {network}.{station} is '
                     f'{tt} s. The assumed direct-line distance was {d} km.')
-        if lts < tw_start + self.options['dv']['tw_len']:
+        tw_len = self.options['dv']['tw_len']
+        if tw_len is not None and lts < tw_start + tw_len:
             reqtw = tw_start + self.options[
                 'dv']['tw_len']
             raise ValueError(
@@ -223,8 +225,8 @@ class Monitor(object):
                 'Function.'
                 ' When computing the correlations make sure to set an '
                 f'appropriate value for lengthToSave. The value was {lts}.'
-                f' The direct-line distance between the stations is {d} km.'
-            )
+                + (f' The direct-line distance between the stations is {d} km.'
+                   if d is not None else ''))
 
         if 'preprocessing' in self.options['dv']:
             for func in self.options['dv']['preprocessing']:
@@ -257,7 +259,7 @@ class Monitor(object):
         if self.options['dv']['tw_len'] is None:
             trim0 = cb.stats.start_lag
             trim1 = cb.stats.end_lag
-            cbt = cb
+            cbt = cb.copy()
         else:
             trim0 = -(
                 tw_start+self.options['dv']['tw_len'])
-- 
2.43.0


From 536bca048c8be0f2c546b40818a6ca44c0d270a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 47/99] fix: values of smoothed similarity matrices without
 data

---
 src/seismic/monitor/dv.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/dv.py b/src/seismic/monitor/dv.py
index e430b8d..c5dff38 100644
--- a/src/seismic/monitor/dv.py
+++ b/src/seismic/monitor/dv.py
@@ -218,7 +218,10 @@ class DV(object):
         # Compute the dependencies again
         self.corr = np.nanmax(self.sim_mat, axis=1)
         self.value = self.second_axis[
-            np.argmax(np.nan_to_num(self.sim_mat), axis=1)]
+            np.argmax(np.nan_to_num(self.sim_mat, nan=-np.inf), axis=1)]
+        # No value without similarity
+        self.value[np.isnan(self.corr)] = np.nan
+        self.avail = ~np.isnan(self.corr)
         return self
 
 
-- 
2.43.0


From fd216c96d449331b569916c6dc6e1364627863ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:10 +0000
Subject: [PATCH 48/99] fix: times to be removed in the options of the Monitor

---
 src/seismic/monitor/monitor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 7110fe8..ab20779 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -117,7 +117,8 @@ class Monitor(object):
                         step['args']['ends'] = endsstr
             with open(os.path.join(
                     logdir, 'params%s.txt' % tstr), 'w') as file:
-                file.write(json.dumps(opt_dump, indent=1))
+                # times and arrays are written as text
+                file.write(json.dumps(opt_dump, indent=1, default=str))
 
         # Find available stations and network
         self.netlist, self.statlist, self.infiles = \
-- 
2.43.0


From 0bd580e8045807bc72e1e4aeccd7710b247db52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:20 +0000
Subject: [PATCH 49/99] fix: shift correction at single, interrupted, and
 unavailable times

---
 src/seismic/monitor/monitor.py | 37 +++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index ab20779..dfd613a 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -837,8 +837,10 @@ def correct_dv_shift(
     both_avail = np.all(np.vstack((dv0.avail, dv1.avail)), axis=0)
     if np.any(both_avail):
         # Unless one of them become less than 0 or more than length
-        start = np.where(both_avail)[0].min() - n_overlap
-        stop = np.where(both_avail)[0].max() + n_overlap
+        first = np.where(both_avail)[0].min()
+        last = np.where(both_avail)[0].max()
+        start = first - n_overlap
+        stop = last + 1 + n_overlap
         ii = jj = 0
     elif (
         np.array(dv0.stats.starttime)[dv0.avail][0]
@@ -868,26 +870,33 @@ def correct_dv_shift(
             'n_overlap, i.e., '
             f'{n_overlap*(dv0.stats.starttime[1]-dv0.stats.starttime[0])/3600}'
             'hours. The result would not make sense.')
-    if stop >= len(dv0.value):
-        stop = len(dv0.value) - 1
-    if start < 0:
-        start = 0
-    dv0c = dv0.corr[start:stop]
-    dv0v = dv0.value[start:stop]
-    dv1c = dv1.corr[start:stop]
-    dv1v = dv1.value[start:stop]
+    use = np.zeros(len(dv0.value), dtype=bool)
+    use[max(start, 0):stop] = True
+    if np.any(both_avail):
+        # only compare the same times
+        use[first:last+1] &= both_avail[first:last+1]
+    dv0c = dv0.corr[use]
+    dv0v = dv0.value[use]
+    dv1c = dv1.corr[use]
+    dv1v = dv1.value[use]
     if method == 'mean':
         shift = np.nanmean(dv0v*dv0c)/np.nanmean(dv0c)\
             - np.nanmean(dv1v*dv1c)/np.nanmean(dv1c)
     elif method == 'median':
-        shift = np.nanmedian(
-            dv0.value[start:stop])-np.nanmedian(dv1.value[start:stop])
+        shift = np.nanmedian(dv0v)-np.nanmedian(dv1v)
     else:
         raise ValueError('Method has to be either mean or median')
     roll = int(round(-shift/(dv0.second_axis[1]-dv0.second_axis[0])))
     dv0.sim_mat = np.roll(dv0.sim_mat, (roll, 0))
-    dv0.value = dv0.second_axis[
-        np.nanargmax(np.nan_to_num(dv0.sim_mat), axis=1)]
+    # still nothing available at these times
+    dv0.sim_mat[~dv0.avail] = np.nan
+    sim_mat = np.nan_to_num(dv0.sim_mat, nan=-np.inf)
+    # values that reentered at the other end are not measured
+    sim_mat[:, :max(roll, 0)] = -np.inf
+    sim_mat[:, sim_mat.shape[1] + min(roll, 0):] = -np.inf
+    dv0.value = dv0.second_axis[np.argmax(sim_mat, axis=1)]
+    if not np.all(dv0.avail):
+        dv0.value = np.where(dv0.avail, dv0.value, np.nan)
     return dv0, dv1
 
 
-- 
2.43.0


From 4078ad60709d650fcecf4a46774bc80754d24302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 50/99] fix: averages of velocity changes with partly
 unavailable similarity

---
 src/seismic/monitor/monitor.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index dfd613a..149fbc2 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -971,12 +971,13 @@ def average_components_mem_save(
     statsl = []
     corrs = []
     stretches = []
+    stats = None
     for ii, dv in enumerate(dvs):
         if ii == 0:
             sim_mat_sum = np.zeros_like(dv.sim_mat)
+            n_sim = np.zeros_like(dv.sim_mat)
             n_stat = np.zeros_like(dv.corr)
 
-            stats = deepcopy(dv.stats)
             strvec = dv.second_axis
             value_type = dv.value_type
             method = dv.method
@@ -995,17 +996,20 @@ def average_components_mem_save(
                 + 'and stretch steps.\n\nThis dv will be skipped'
             )
             continue
+        if stats is None:
+            stats = deepcopy(dv.stats)
         sim_mat_sum += np.nan_to_num(dv.sim_mat)
+        n_sim += ~np.isnan(dv.sim_mat)
         n_stat[~np.isnan(dv.value)] += 1
         if save_scatter:
             corrs.append(dv.corr)
             stretches.append(dv.value)
         statsl.append(dv.stats)
-    # Now inf where it was nan before
-    av_sim_mat = (sim_mat_sum.T/n_stat).T
-    av_sim_mat[np.isinf(av_sim_mat)] = np.nan
+    # nan where no dv is available
+    n_sim[n_sim == 0] = np.nan
+    av_sim_mat = sim_mat_sum/n_sim
     # Now we would have to recompute the dv value and corr value
-    iimax = np.nanargmax(np.nan_to_num(av_sim_mat), axis=1)
+    iimax = np.argmax(np.nan_to_num(av_sim_mat, nan=-np.inf), axis=1)
     corr = np.nanmax(av_sim_mat, axis=1)
     dt = strvec[iimax]
     dt[np.isnan(corr)] = np.nan
@@ -1081,7 +1085,7 @@ def average_components(
             n_overlap=correct_shift_overlap)
     av_sim_mat = np.nanmean([dv.sim_mat for dv in dv_use], axis=0)
     # Now we would have to recompute the dv value and corr value
-    iimax = np.nanargmax(np.nan_to_num(av_sim_mat), axis=1)
+    iimax = np.argmax(np.nan_to_num(av_sim_mat, nan=-np.inf), axis=1)
     corr = np.nanmax(av_sim_mat, axis=1)
     strvec = dv_use[0].second_axis
     dt = strvec[iimax]
-- 
2.43.0


From a9e25d812b6b1217a703b74f35ca89ef639ee47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:39 +0000
Subject: [PATCH 51/99] fix: lists of codes in the selection of correlations

---
 src/seismic/monitor/monitor.py | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 149fbc2..50c59f6 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -769,36 +769,24 @@ def corr_find_filter(
     netlist = []
     statlist = []
     infiles = []
+    networks, stations = (
+        [net[key]] if isinstance(net[key], str) else net[key]
+        for key in ('network', 'station'))
     for f in glob(os.path.join(indir, '*-*.*-*.h5')):
-        matched = False
         f = os.path.basename(f)
         split = f.split('.')
 
         # Find the files that should actually be processed
         nsplit = split[0].split('-')
         ssplit = split[1].split('-')
-        if isinstance(net['network'], str) and not fnmatch.filter(
-                nsplit, net['network']) == nsplit:
+        # each of the codes has to match one of the requested codes, which may
+        # contain wildcards
+        if not all(any(fnmatch.fnmatch(code, pat) for pat in networks)
+                   for code in nsplit):
             continue
-        elif isinstance(net['network'], list):
-            # account for the case of wildcards in the network list
-            for n in net['network']:
-                if fnmatch.filter(nsplit, n) == nsplit:
-                    matched = True
-                    break
-            if not matched:
-                continue
-        if isinstance(net['station'], str) and not fnmatch.filter(
-                ssplit, net['station']) == ssplit:
+        if not all(any(fnmatch.fnmatch(code, pat) for pat in stations)
+                   for code in ssplit):
             continue
-        elif isinstance(net['station'], list):
-            # account for the case of wildcards in the station list
-            for s in net['station']:
-                if fnmatch.filter(ssplit, s) == ssplit:
-                    matched = True
-                    break
-            if not matched:
-                continue
 
         netlist.append(split[0])
         statlist.append(split[1])
-- 
2.43.0


From 2d16b98f32a635fb289e37a113d9c8b9f1a4116e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 52/99] fix: groups of velocity changes in averages of
 components

---
 src/seismic/monitor/monitor.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 50c59f6..752c420 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -401,11 +401,11 @@ class Monitor(object):
             ch = 'av'
         while len(infiles):
             # Find files belonging to same station
-            pat = '.'.join(infiles[0].split('.')[:-2]) + '*'
-            filtfil = fnmatch.filter(infiles, pat)
+            stem = infiles[0].rsplit('.', 2)[0]
+            filtfil = [f for f in infiles if f.rsplit('.', 2)[0] == stem]
             fffil = []  # Second filter
             for f in filtfil:
-                if ch in f.split('.'):
+                if ch == f.split('.')[-2]:
                     # Is already computed for this station
                     # So let's remove all of them from the initial list
                     for ff in filtfil:
@@ -419,7 +419,7 @@ class Monitor(object):
                     fffil.clear()
                     self.logger.debug('Skipping already averaged dv...%s' % f)
                     break
-                elif 'av' in f:
+                elif 'av' in os.path.basename(f):
                     # computed by another averaging method
                     infiles.remove(f)
                     continue
-- 
2.43.0


From dfc16dc08215dd4859c393332d6220a44690448b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:17 +0000
Subject: [PATCH 53/99] fix: files that cannot be read stop the monitoring of
 all others

---
 src/seismic/monitor/monitor.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 752c420..96d949e 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -343,10 +343,16 @@ class Monitor(object):
         if self.rank == 0:
             plist = []
             for f, n, s in zip(self.infiles, self.netlist, self.statlist):
-                with CorrelationDataBase(f, mode='r') as cdb:
-                    ch = cdb.get_available_channels(
-                        tag, n, s)
-                    plist.extend([f, n, s, c] for c in ch)
+                try:
+                    with CorrelationDataBase(f, mode='r') as cdb:
+                        ch = cdb.get_available_channels(
+                            tag, n, s)
+                except Exception:
+                    # The other processes wait for the list
+                    self.logger.exception(
+                        f'No correlations available from file {f}.')
+                    continue
+                plist.extend([f, n, s, c] for c in ch)
         else:
             plist = None
         plist = self.comm.bcast(plist, root=0)
@@ -498,10 +504,16 @@ class Monitor(object):
         if self.rank == 0:
             plist = []
             for f, n, s in zip(self.infiles, self.netlist, self.statlist):
-                with CorrelationDataBase(f, mode='r') as cdb:
-                    ch = cdb.get_available_channels(
-                        tag, n, s)
-                    plist.extend([f, n, s, c] for c in ch)
+                try:
+                    with CorrelationDataBase(f, mode='r') as cdb:
+                        ch = cdb.get_available_channels(
+                            tag, n, s)
+                except Exception:
+                    # The other processes wait for the list
+                    self.logger.exception(
+                        f'No correlations available from file {f}.')
+                    continue
+                plist.extend([f, n, s, c] for c in ch)
         else:
             plist = None
         plist = self.comm.bcast(plist, root=0)
-- 
2.43.0


From 9fa1dfadec8a48acb903a8ed693ddb0f1c7669a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 54/99] fix: coherence of many stations on several processes

---
 src/seismic/monitor/monitor.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 96d949e..b8c2f1a 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -526,17 +526,21 @@ class Monitor(object):
         wfcl = []
         for ii in tqdm(ind):
             corr_file, net, stat, cha = plist[ii]
-            for wfc in self.compute_waveform_coherence(
-                    corr_file, tag, net, stat, cha):
-                try:
+            try:
+                for wfc in self.compute_waveform_coherence(
+                        corr_file, tag, net, stat, cha):
                     wfcl.append(wfc)
-                except Exception as e:
-                    self.logger.exception(e)
+            except Exception as e:
+                # The other processes wait for the results
+                self.logger.exception(f'{e} for file {corr_file}.')
 
         outdir = os.path.join(
             self.options['proj_dir'], self.options['wfc']['subdir'])
         # Compute averages and everything
         wfclu = self.comm.allgather(wfcl)
+        if self.rank != 0:
+            # each file is written by one process only
+            return
         # concatenate
         wfcl = [j for i in wfclu for j in i]
         del wfclu
@@ -618,8 +622,8 @@ class Monitor(object):
         cb = cst.create_corr_bulk(inplace=True)
         outdir = os.path.join(
             self.options['proj_dir'], self.options['wfc']['subdir'])
-        if self.rank == 0:
-            os.makedirs(outdir, exist_ok=True)
+        # Any process might be the first one to get here
+        os.makedirs(outdir, exist_ok=True)
 
         # for possible rest bits
         del cst
-- 
2.43.0


From 7a443678d2178ea6cf9bcd44ca9e874a37d54a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:52 +0000
Subject: [PATCH 55/99] fix: taper of traces of integers

---
 src/seismic/correlate/preprocessing_stream.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/preprocessing_stream.py b/src/seismic/correlate/preprocessing_stream.py
index 6ff6051..a33931d 100644
--- a/src/seismic/correlate/preprocessing_stream.py
+++ b/src/seismic/correlate/preprocessing_stream.py
@@ -101,7 +101,8 @@ def cos_taper(
     if tl_n * 2 > tr.stats.npts:
         raise ValueError(
             'Taper Length * 2 has to be smaller or equal to trace\'s length.')
-    taper = np.ones_like(tr.data)
+    # the taper of integer data is not an integer
+    taper = np.ones(tr.stats.npts)
     tap = np.sin(np.linspace(0, np.pi, tl_n*2))
     taper[:tl_n] = tap[:tl_n]
     taper[-tl_n:] = tap[-tl_n:]
-- 
2.43.0


From 8b77780a06736f50a16efc510120330579ad7227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:14 +0000
Subject: [PATCH 56/99] fix: detrend and taper traces that start with masked
 values

---
 src/seismic/correlate/preprocessing_stream.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/preprocessing_stream.py b/src/seismic/correlate/preprocessing_stream.py
index a33931d..b052620 100644
--- a/src/seismic/correlate/preprocessing_stream.py
+++ b/src/seismic/correlate/preprocessing_stream.py
@@ -91,7 +91,9 @@ def cos_taper(
                 'Tapering lossless at masked values is not supported')
         st = tr.split()
         st = cos_taper_st(st, taper_len, False, False)
-        st = st.merge()
+        # The trace might start or end with masked values
+        st = st.merge().trim(
+            tr.stats.starttime, tr.stats.endtime, pad=True)
         if st.count():
             tr.data = st[0].data
             return tr
@@ -129,8 +131,13 @@ def detrend_st(st: Stream, *args, **kwargs) -> Stream:
     """
     for tr in st:
         sst = tr.split()
+        if not sst.count():
+            # all values are masked
+            continue
         sst.detrend(*args, **kwargs)
-        tr.data = sst.merge()[0].data
+        # The trace might start or end with masked values
+        sst.merge().trim(tr.stats.starttime, tr.stats.endtime, pad=True)
+        tr.data = sst[0].data
     return st
 
 
-- 
2.43.0


From e182068f0196320100191d16107bd49d575571c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:46 +0000
Subject: [PATCH 57/99] fix: masks that cover a whole trace

---
 src/seismic/correlate/preprocessing_stream.py | 30 +++----------------
 1 file changed, 4 insertions(+), 26 deletions(-)

diff --git a/src/seismic/correlate/preprocessing_stream.py b/src/seismic/correlate/preprocessing_stream.py
index b052620..dfd7774 100644
--- a/src/seismic/correlate/preprocessing_stream.py
+++ b/src/seismic/correlate/preprocessing_stream.py
@@ -272,41 +272,19 @@ def trace_mask_at_utc(
         :func:`~seismic.correlate.preprocessing_stream.stream_mask_at_utc`
     """
     start = tr.stats.starttime
-    end = tr.stats.endtime
-    # starts in trace
-    ii = (starts < end) * (starts > start)
-    # ends in trace
-    jj = (ends < end) * (ends > start)
 
     mask = np.zeros(tr.data.shape, dtype=bool)
 
-    # masks that are completlely in trace
-    kk = jj*ii
-    for s, e in zip(starts[kk], ends[kk]):
+    # The masks may start before or end after the trace
+    for s, e in zip(starts, ends):
         # Find start-index in trace
         t = s-start
-        ns = int(np.floor(tr.stats.sampling_rate*t))
+        ns = max(int(np.floor(tr.stats.sampling_rate*t)), 0)
         # find stop index
         t = e-start
-        ne = int(np.ceil(tr.stats.sampling_rate*t))+1
+        ne = max(int(np.ceil(tr.stats.sampling_rate*t))+1, 0)
         mask[ns:ne] = True
 
-    # only start of mask in trace
-    ll = ii * ~jj
-    for s in starts[ll]:
-        # Find start-index in trace
-        t = s-start
-        ns = int(np.floor(tr.stats.sampling_rate*t))
-        mask[ns:] = True
-
-    # only end of mask in trace
-    ll = ~ii * jj
-    for e in ends[ll]:
-        # Find start-index in trace
-        t = e-start
-        ne = int(np.ceil(tr.stats.sampling_rate*t))+1
-        mask[:ne] = True
-
     if reverse:
         mask = ~mask
     # Mask the array
-- 
2.43.0


From 4f9c09d1fcc4c9d69378cba97a18cd99f6247f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:17 +0000
Subject: [PATCH 58/99] fix: interpolation of gaps in integers and of masked
 arrays

---
 src/seismic/utils/miic_utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/seismic/utils/miic_utils.py b/src/seismic/utils/miic_utils.py
index 45265f7..c8b3d82 100644
--- a/src/seismic/utils/miic_utils.py
+++ b/src/seismic/utils/miic_utils.py
@@ -521,6 +521,11 @@ def interpolate_gaps(A: np.ndarray, max_gap_len: int = -1) -> np.ndarray:
     if not np.ma.is_masked(A):
         return A
     mask = np.ma.getmask(A)
+    if mask.all():
+        return A
+    if not np.issubdtype(A.dtype, np.inexact):
+        # The interpolated values are no integers
+        A = A.astype(float)
 
     maskconc = np.concatenate((
         [mask[0]], mask[:-1] != mask[1:], [True]))
-- 
2.43.0


From 1b6dfe10a4944dcf2bf63de765153a4079f8f084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:42 +0000
Subject: [PATCH 59/99] fix: interpolate the gaps between separate traces

---
 src/seismic/utils/miic_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/utils/miic_utils.py b/src/seismic/utils/miic_utils.py
index c8b3d82..cfec493 100644
--- a/src/seismic/utils/miic_utils.py
+++ b/src/seismic/utils/miic_utils.py
@@ -494,6 +494,8 @@ def gap_handler(
     """
     # take care of overlaps
     st = st.merge(method=-1)
+    # gaps between separate traces
+    st = st.merge()
     # 1. try to interpolate gaps
     st = interpolate_gaps_st(st, max_gap_len=max_interpolation_length)
 
-- 
2.43.0


From 2cdf332d4faa10dc6936ab0e5cfb85480577d96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:39 +0000
Subject: [PATCH 60/99] fix: taper integers at masked values

---
 src/seismic/correlate/preprocessing_stream.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/seismic/correlate/preprocessing_stream.py b/src/seismic/correlate/preprocessing_stream.py
index dfd7774..2c5b521 100644
--- a/src/seismic/correlate/preprocessing_stream.py
+++ b/src/seismic/correlate/preprocessing_stream.py
@@ -89,6 +89,9 @@ def cos_taper(
         if lossless:
             warn(
                 'Tapering lossless at masked values is not supported')
+        if not np.issubdtype(tr.data.dtype, np.inexact):
+            # parts that are too short to be tapered have the same type
+            tr.data = tr.data.astype(float)
         st = tr.split()
         st = cos_taper_st(st, taper_len, False, False)
         # The trace might start or end with masked values
-- 
2.43.0


From c018f403b34f8ab7406375d70e628437a350064b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:21 +0000
Subject: [PATCH 61/99] fix: detrending with scipy chosen by the argument
 method

---
 src/seismic/correlate/preprocessing_td.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/correlate/preprocessing_td.py b/src/seismic/correlate/preprocessing_td.py
index c770ba8..ac00058 100644
--- a/src/seismic/correlate/preprocessing_td.py
+++ b/src/seismic/correlate/preprocessing_td.py
@@ -89,6 +89,8 @@ def detrend_scipy(A: np.ndarray, args: dict, params: dict) -> np.ndarray:
 
     .. seealso:: :func:`scipy.signal.detrend` for input arguments
     """
+    # also used as argument of detrend
+    args = {k: v for k, v in args.items() if k != 'method'}
     if np.all(np.isnan(A)):
         return A
     for ii in range(A.shape[0]):
-- 
2.43.0


From 399a4cf932869c850db8965979591b9b1bb4f3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:47 +0000
Subject: [PATCH 62/99] fix: muting with extended gaps leaves a part of the
 large samples

---
 src/seismic/correlate/preprocessing_td.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/preprocessing_td.py b/src/seismic/correlate/preprocessing_td.py
index ac00058..fcf7db0 100644
--- a/src/seismic/correlate/preprocessing_td.py
+++ b/src/seismic/correlate/preprocessing_td.py
@@ -232,7 +232,10 @@ def mute(A: np.ndarray, args: dict, params: dict) -> np.ndarray:
     if args['extend_gaps']:
         tap = np.ones(ntap)/ntap
         for ind in range(A.shape[0]):
-            mask[ind, :] = np.convolve(mask[ind, :], tap, mode='same')
+            # reversed so that gaps with even length are extended to the
+            # side which is affected by the taper below
+            mask[ind, :] = np.convolve(
+                mask[ind, ::-1], tap, mode='same')[::-1]
         nmask = np.ones_like(D)
         # at least one of ntap samples muted
         nmask[mask < 1. - .5/ntap] = 0
-- 
2.43.0


From 3ae443835f1da6132a688bc25d01ae255ab8d855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:12 +0000
Subject: [PATCH 63/99] fix: normalisation of dead traces in time domain

---
 src/seismic/correlate/preprocessing_td.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/correlate/preprocessing_td.py b/src/seismic/correlate/preprocessing_td.py
index fcf7db0..4883975 100644
--- a/src/seismic/correlate/preprocessing_td.py
+++ b/src/seismic/correlate/preprocessing_td.py
@@ -399,6 +399,8 @@ def TDnormalization(A: np.ndarray, args: dict, params: dict) -> np.ndarray:
             # damping factor
             B[ind, :] += np.max(B[ind, :])*1e-6
     # normalization
+    # dead traces stay as they are
+    B[B == 0] = 1
     A /= np.sqrt(B)
     return A
 
-- 
2.43.0


From 9f8cc9325e63ed103dca9281fc60f372bc213433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:33 +0000
Subject: [PATCH 64/99] fix: zero phase filters of several traces

---
 src/seismic/correlate/preprocessing_td.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/preprocessing_td.py b/src/seismic/correlate/preprocessing_td.py
index 4883975..35ad522 100644
--- a/src/seismic/correlate/preprocessing_td.py
+++ b/src/seismic/correlate/preprocessing_td.py
@@ -435,8 +435,12 @@ def TDfilter(A: np.ndarray, args: dict, params: dict) -> np.ndarray:
     func = func_from_str('obspy.signal.filter.%s' % args['type'])
     args = deepcopy(args)
     args.pop('type')
-    A = func(A, df=params['sampling_rate'], **args)
-    return A
+    if A.ndim > 1:
+        # zerophase filters of obspy would reverse the order of the traces
+        return np.reshape(
+            [func(tr, df=params['sampling_rate'], **args) for tr in A],
+            A.shape)
+    return func(A, df=params['sampling_rate'], **args)
 
 
 def zeroPadding(A: np.ndarray, args: dict, params: dict, axis=1) -> np.ndarray:
-- 
2.43.0


From bddd101c1c5ffda779ca3170a269fe6fcce58650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:57 +0000
Subject: [PATCH 65/99] fix: zero padding with sampling rates that are not
 integers

---
 src/seismic/correlate/preprocessing_td.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/correlate/preprocessing_td.py b/src/seismic/correlate/preprocessing_td.py
index 35ad522..60381b8 100644
--- a/src/seismic/correlate/preprocessing_td.py
+++ b/src/seismic/correlate/preprocessing_td.py
@@ -487,7 +487,7 @@ def zeroPadding(A: np.ndarray, args: dict, params: dict, axis=1) -> np.ndarray:
     if args['type'] == 'nextFastLen':
         N = next_fast_len(npts)
     elif args['type'] == 'avoidWrapAround':
-        N = npts + params['sampling_rate'] * params['lengthToSave']
+        N = int(npts + params['sampling_rate'] * params['lengthToSave'])
     elif args['type'] == 'avoidWrapFastLen':
         N = next_fast_len(int(
             npts + params['sampling_rate'] * params['lengthToSave']))
-- 
2.43.0


From 73fad99d75bcda179760e5394f88f86555d6220c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:22 +0000
Subject: [PATCH 66/99] fix: sign bit normalisation of spectra of an odd number
 of samples

---
 src/seismic/correlate/preprocessing_fd.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/seismic/correlate/preprocessing_fd.py b/src/seismic/correlate/preprocessing_fd.py
index af20fc7..7b30839 100644
--- a/src/seismic/correlate/preprocessing_fd.py
+++ b/src/seismic/correlate/preprocessing_fd.py
@@ -66,12 +66,17 @@ def FDsignBitNormalization(
     :type args: dictionary
     :param args: not used in this function
     :type params: dictionary
-    :param params: not used in this function
+    :param params: the number of samples in time domain follows from `freqs`
+        and `sampling_rate` (even if they are not given)
 
     :rtype: numpy.ndarray
     :return: frequency transform of the 1-bit normalized data
     """
-    B = np.fft.irfft(B)
+    npts = 2*(B.shape[1] - 1)
+    freqs = params.get('freqs')
+    if freqs is not None and 'sampling_rate' in params and len(freqs) > 1:
+        npts = int(np.round(params['sampling_rate']/(freqs[1] - freqs[0])))
+    B = np.fft.irfft(B, n=npts)
     # np.sign only takes the real part into account
     C = np.sign(B)
     return np.fft.rfft(C)
-- 
2.43.0


From 9226ae3de2112090f00e3e3a91bee47e5e0e8444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:18 +0000
Subject: [PATCH 67/99] fix: unknown orientation of one trace affects all
 following traces

---
 src/seismic/utils/miic_utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/seismic/utils/miic_utils.py b/src/seismic/utils/miic_utils.py
index cfec493..aadb1a6 100644
--- a/src/seismic/utils/miic_utils.py
+++ b/src/seismic/utils/miic_utils.py
@@ -446,9 +446,14 @@ def correct_polarity(st: Stream, inv: Inventory):
     """
     st_z = st.select(component='Z')
     for tr in st_z:
-        dip = inv.get_orientation(
-            tr.id, datetime=tr.stats.starttime)['dip']
-        if dip > 0:
+        try:
+            dip = inv.get_orientation(
+                tr.id, datetime=tr.stats.starttime)['dip']
+        except Exception as e:
+            # unknown orientations must not affect the other traces
+            logging.warning(f'Orientation of {tr.id} is unknown: {e}')
+            continue
+        if dip is not None and dip > 0:
             tr.data *= -1
 
 
-- 
2.43.0


From 6470ed5ffff3f9cf6cbcf0d4034d560d72eb50d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:42 +0000
Subject: [PATCH 68/99] fix: response removed twice if it is missing for one of
 several traces

---
 src/seismic/correlate/correlate.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index be386df..b4e45a0 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -1396,15 +1396,26 @@ def preprocess_stream(
 
     inv = store_client.inventory
     if remove_response:
-        try:
-            st.remove_response(taper=False, inventory=inv)
-        except ValueError:
+        fetched = {}
+        # Each trace on its own: the response must not be removed twice if it
+        # is missing for one of the following traces
+        for tr in st:
+            try:
+                tr.remove_response(taper=False, inventory=inv)
+                continue
+            except ValueError:
+                pass
+            net, stat = tr.stats.network, tr.stats.station
+            if (net, stat) in fetched:
+                tr.remove_response(
+                    taper=False, inventory=fetched[net, stat])
+                continue
             print('Station response not found ... loading from remote.')
             # missing station response
             ninv = store_client.rclient.get_stations(
-                network=st[0].stats.network, station=st[0].stats.station,
-                channel='*', level='response')
-            st.remove_response(taper=False, inventory=ninv)
+                network=net, station=stat, channel='*', level='response')
+            tr.remove_response(taper=False, inventory=ninv)
+            fetched[net, stat] = ninv
             store_client._write_inventory(ninv)
             inv += ninv
 
-- 
2.43.0


From b42aabfb75a494d0f90253278e6667cffad9a24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:49 +0000
Subject: [PATCH 69/99] fix: spectral series of windows with equal times

---
 src/seismic/utils/raw_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/utils/raw_analysis.py b/src/seismic/utils/raw_analysis.py
index 54961cc..3d9bf34 100644
--- a/src/seismic/utils/raw_analysis.py
+++ b/src/seismic/utils/raw_analysis.py
@@ -94,7 +94,7 @@ def spct_series_welch(
         specl = [item for sublist in specl for item in sublist]
         t = [item for sublist in t for item in sublist]
         # Sort from values in t
-        specl = [x for _, x in sorted(zip(t, specl))]
+        specl = [specl[ii] for ii in sorted(range(len(t)), key=t.__getitem__)]
         t = sorted(t)
 
         # Convert to numpy array
-- 
2.43.0


From 974de0734d76e87ca7a978b8aec6b3eb9886ba9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:21 +0000
Subject: [PATCH 70/99] fix: spectral series if the first process has no data

---
 src/seismic/utils/raw_analysis.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/seismic/utils/raw_analysis.py b/src/seismic/utils/raw_analysis.py
index 3d9bf34..0440317 100644
--- a/src/seismic/utils/raw_analysis.py
+++ b/src/seismic/utils/raw_analysis.py
@@ -51,6 +51,8 @@ def spct_series_welch(
     rank = comm.Get_rank()
     psize = comm.Get_size()
     specl = []
+    # frequency axis, stays None without any data
+    f2 = None
     # List of actually available times
     t = []
     for ii, st in enumerate(streams):
@@ -89,6 +91,7 @@ def spct_series_welch(
     # Gather all the data
     specl = comm.gather(specl, root=0)
     t = comm.gather(t, root=0)
+    f2 = comm.gather(f2, root=0)
     if rank == 0:
         # Flatten the list
         specl = [item for sublist in specl for item in sublist]
@@ -100,11 +103,12 @@ def spct_series_welch(
         # Convert to numpy array
         S = np.array(specl)
         t = np.array(t)
-        try:
-            return f2, t, S.T
-        except UnboundLocalError:
+        # Not every process has to have data
+        f2 = [x for x in f2 if x is not None]
+        if not len(f2):
             raise ValueError(
                 'A spectrum could not be computed. Check earlier log messages')
+        return f2[0], t, S.T
     else:
         return None, None, None
 
-- 
2.43.0


From bea79cbc9cbd43a479b3c60d0a074fd6c3926b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:50 +0000
Subject: [PATCH 71/99] fix: spectrograms beyond the requested end

---
 src/seismic/trace_data/waveform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 96e5217..85d19cc 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -418,7 +418,7 @@ class Store_Client(object):
         starttimes = starttime.timestamp + np.arange(
             0, endtime.timestamp-starttime.timestamp, increment)
         for start in starttimes:
-            end = UTCDateTime(start + increment)
+            end = min(UTCDateTime(start + increment), endtime)
             st = self._load_local(
                 network, station, '*', channel, UTCDateTime(start), end,
                 attach_response=True, _check_times=False)
-- 
2.43.0


From 8fd872f201849aaf376adeaeb5e896bb084a74e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:20 +0000
Subject: [PATCH 72/99] fix: spectrograms if the read increment is no multiple
 of the window length

---
 src/seismic/trace_data/waveform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 85d19cc..69b7515 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -467,6 +467,8 @@ class Store_Client(object):
             raise ValueError(
                 'read_increment must be >= win_len, got {} and {}'.format(
                     read_increment, win_len))
+        # Windows must not be lost between two increments
+        read_increment -= read_increment % win_len
         data_gen = self._generate_time_windows(
             network, station, channel, starttime, endtime, read_increment)
         return spct_series_welch(
-- 
2.43.0


From 357f54aa3e7076ff4fe02e5945f8437b22a80bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:51 +0000
Subject: [PATCH 73/99] fix: sensitivity kernels on grids with spacings like
 0.1

---
 src/seismic/monitor/spatial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/spatial.py b/src/seismic/monitor/spatial.py
index d0314ae..9d1b94f 100644
--- a/src/seismic/monitor/spatial.py
+++ b/src/seismic/monitor/spatial.py
@@ -146,7 +146,9 @@ def sensitivity_kernel(
     atol = vel*dt/2
     if dt <= 0:
         raise ValueError('dt has to be greater than 0.')
-    if np.any(np.diff(x) != x[1]-x[0]) or np.any(np.diff(y) != y[1]-y[0]):
+    # the differences of floating point numbers are not exactly equal
+    if not np.allclose(np.diff(x), x[1]-x[0], atol=0) \
+            or not np.allclose(np.diff(y), y[1]-y[0], atol=0):
         raise ValueError('x and y have to be monotonously increasing arrays.')
     if x[1]-x[0] < 2*vel*dt:
         warnings.warn(
-- 
2.43.0


From 3a5be2d37f9cbd21d9e747227d8c56233496feaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:32 +0000
Subject: [PATCH 74/99] fix: sensitivity kernels for lapse times that are no
 multiple of dt

---
 src/seismic/monitor/spatial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/spatial.py b/src/seismic/monitor/spatial.py
index 9d1b94f..d95706f 100644
--- a/src/seismic/monitor/spatial.py
+++ b/src/seismic/monitor/spatial.py
@@ -155,7 +155,8 @@ def sensitivity_kernel(
             'dt is too large for the grid spacing. This can lead to '
             'artefacts in the kernel. dt should be smaller than '
             'dx/(2*vel).')
-    T = np.arange(0, t + dt, dt)
+    # must not exceed t, even if t is no multiple of dt
+    T = np.arange(int(np.floor(t/dt + 1e-9)) + 1)*dt
     dist_s1_s2 = np.linalg.norm(s1-s2)
     denom = probability(dist_s1_s2, t, vel, mf_path, atol=atol)
     dist_s1_x0 = compute_grid_dist(x, y, s1[0], s1[1])
-- 
2.43.0


From 5f6a00dad33419e59d81548e1a1bef12837f526b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:09 +0000
Subject: [PATCH 75/99] fix: align dv curves to the value of their own station
 pair

---
 src/seismic/monitor/spatial.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/spatial.py b/src/seismic/monitor/spatial.py
index d95706f..ea5672a 100644
--- a/src/seismic/monitor/spatial.py
+++ b/src/seismic/monitor/spatial.py
@@ -1018,7 +1018,17 @@ class DVGrid(object):
             return dvs
         # Compute the foward value at each of the remaining dvs
         if hasattr(self, 'vel_change'):
-            shifts = self.forward_model(self.vel_change, dvs, utc)
+            available, shifts = [], []
+            for dv in dvs:
+                try:
+                    # One by one, so that values always belong to their dv
+                    shift = self.forward_model(self.vel_change, [dv], utc)[0]
+                except IndexError:
+                    # not considered at this time
+                    continue
+                available.append(dv)
+                shifts.append(shift)
+            dvs = available
             if np.any(np.isnan(shifts)):
                 raise ValueError(
                     'The forward model returned nan values. why?'
-- 
2.43.0


From 97707c24dab16140a7ca3a758150ec456a1e46aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:45 +0000
Subject: [PATCH 76/99] fix: coordinates outside of the grid

---
 src/seismic/monitor/spatial.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/seismic/monitor/spatial.py b/src/seismic/monitor/spatial.py
index ea5672a..dada858 100644
--- a/src/seismic/monitor/spatial.py
+++ b/src/seismic/monitor/spatial.py
@@ -880,15 +880,18 @@ class DVGrid(object):
         """
         # Find northing and easting of coordinates
         x, y = geo2cart(lat, lon, self.lat0, self.lon0)
+        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
+            x, y = np.broadcast_arrays(x, y)
         if not isinstance(x, np.ndarray):
             if np.all(abs(self.xf-x) > self.res) \
-                    or np.all(abs(self.yf-y > self.res)):
+                    or np.all(abs(self.yf-y) > self.res):
                 raise ValueError(
                     'The point is outside the coordinate grid'
                 )
             return np.argmin(abs(self.xf-x)**2+abs(self.yf-y)**2)
-        if np.all(np.array([abs(self.xf-xx) for xx in x]) > self.res)\
-                or np.all(np.array([abs(self.yf-yy) for yy in y]) > self.res):
+        # None of the points may be outside
+        if any(np.all(abs(self.xf-xx) > self.res) for xx in x)\
+                or any(np.all(abs(self.yf-yy) > self.res) for yy in y):
             raise ValueError(
                 'The point is outside the coordinate grid'
             )
-- 
2.43.0


From b17b15d1254ecb5bf32f96eda5781be080d44eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:05 +0000
Subject: [PATCH 77/99] fix: missing rows of a correlation matrix made clipping
 over rows invalidate all rows

---
 src/seismic/monitor/post_corr_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/monitor/post_corr_process.py b/src/seismic/monitor/post_corr_process.py
index 18f4d03..7d36282 100644
--- a/src/seismic/monitor/post_corr_process.py
+++ b/src/seismic/monitor/post_corr_process.py
@@ -47,7 +47,7 @@ def corr_mat_clip(A: np.ndarray, thres: float, axis: int) -> np.ndarray:
     :return: The clipped array
     :rtype: np.ndarray
     """
-    clipv = thres * np.std(A, axis=axis)
+    clipv = thres * np.nanstd(A, axis=axis)
     if axis == 1:
         A = np.clip(A.T, -clipv, clipv).T
     else:
-- 
2.43.0


From 20f5f5f0ca1e0dd23f747ccd353cd8e764b4b7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:14 +0000
Subject: [PATCH 78/99] fix: options given by the user were altered and could
 not be used again

---
 src/seismic/correlate/correlate.py | 2 ++
 src/seismic/monitor/monitor.py     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index b4e45a0..0d86fa3 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -61,6 +61,8 @@ class Correlator(object):
         if isinstance(options, str):
             with open(options) as file:
                 options = yaml.load(file, Loader=yaml.FullLoader)
+        # the options may be used again
+        options = deepcopy(options)
         # init MPI
         self.comm = MPI.COMM_WORLD
         self.psize = self.comm.Get_size()
diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index b8c2f1a..384299d 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -48,6 +48,8 @@ class Monitor(object):
         if isinstance(options, str):
             with open(options) as file:
                 options = yaml.load(file, Loader=yaml.FullLoader)
+        # the options may be used again
+        options = deepcopy(options)
         self.options = options
         self.starttimes, self.endtimes = self._starttimes_list()
         self.proj_dir = options['proj_dir']
-- 
2.43.0


From 1555362d3bb775a879b4150b30b2f531bbf4c575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:39 +0000
Subject: [PATCH 79/99] fix: times in parameter files had to be quoted

---
 src/seismic/correlate/correlate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 0d86fa3..43de2d7 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -120,7 +120,8 @@ class Correlator(object):
                         step['args']['ends'] = endsstr
             with open(os.path.join(
                     logdir, 'params%s.txt' % tstr), 'w') as file:
-                file.write(json.dumps(opt_dump, indent=1))
+                # times are written as text
+                file.write(json.dumps(opt_dump, indent=1, default=str))
 
         self.options = options['co']
 
-- 
2.43.0


From f89ea9e07db1bcc92ded29be0d318e7e67aa8361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:45 +0000
Subject: [PATCH 80/99] fix: Monitor did not accept log levels in lower case

---
 src/seismic/monitor/monitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index 384299d..c15001d 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -76,7 +76,7 @@ class Monitor(object):
             os.makedirs(logdir, exist_ok=True)
 
         # Logging - rank dependent
-        loglvl = log_lvl[self.options['log_level']]
+        loglvl = log_lvl[self.options['log_level'].upper()]
 
         if self.rank == 0:
             tstr = UTCDateTime.now().strftime('%Y-%m-%d-%H:%M')
-- 
2.43.0


From fd4199a17da6dcd97885c94e9a51a01ce711ee7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:10 +0000
Subject: [PATCH 81/99] fix: component None did not stand for all components

---
 src/seismic/trace_data/waveform.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 69b7515..ec124d3 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -245,6 +245,9 @@ class Store_Client(object):
         :return: _description_
         :rtype: _type_
         """
+        if component in (None, 'None'):
+            # all components
+            component = '?'
         dirlist = glob.glob(
             os.path.join(
                 self.sds_root, '*', network, station, '??'+component+'.?'))
-- 
2.43.0


From 36c1d84ad778769c6f5dd9d8ce0381b94dbb714f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:39 +0000
Subject: [PATCH 82/99] fix: times to mask or remove could not be given in
 parameter files

---
 src/seismic/correlate/correlate.py            | 6 ++++--
 src/seismic/correlate/preprocessing_stream.py | 4 ++--
 src/seismic/correlate/stream.py               | 1 +
 src/seismic/monitor/monitor.py                | 6 ++++--
 4 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/seismic/correlate/correlate.py b/src/seismic/correlate/correlate.py
index 43de2d7..76abe3c 100644
--- a/src/seismic/correlate/correlate.py
+++ b/src/seismic/correlate/correlate.py
@@ -112,11 +112,13 @@ class Correlator(object):
             for step in opt_dump['co']['preProcessing']:
                 if 'stream_mask_at_utc' in step['function']:
                     startsstr = [
-                        t.format_fissures() for t in step['args']['starts']]
+                        UTCDateTime(t).format_fissures()
+                        for t in step['args']['starts']]
                     step['args']['starts'] = startsstr
                     if 'ends' in step['args']:
                         endsstr = [
-                            t.format_fissures() for t in step['args']['ends']]
+                            UTCDateTime(t).format_fissures()
+                            for t in step['args']['ends']]
                         step['args']['ends'] = endsstr
             with open(os.path.join(
                     logdir, 'params%s.txt' % tstr), 'w') as file:
diff --git a/src/seismic/correlate/preprocessing_stream.py b/src/seismic/correlate/preprocessing_stream.py
index 2c5b521..b855d28 100644
--- a/src/seismic/correlate/preprocessing_stream.py
+++ b/src/seismic/correlate/preprocessing_stream.py
@@ -257,11 +257,11 @@ def stream_mask_at_utc(
         raise ValueError(msg)
     elif ends is not None and len(ends) != len(starts):
         raise ValueError('Ends must have the same length as starts.')
-    starts = np.array(starts)
+    starts = np.array([UTCDateTime(t) for t in starts])
     if ends is None:
         ends = starts + masklen
     else:
-        ends = np.array(ends)
+        ends = np.array([UTCDateTime(t) for t in ends])
     for tr in st:
         trace_mask_at_utc(tr, starts, ends, reverse)
     return st
diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 2a212f6..1f24ed8 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -1015,6 +1015,7 @@ class CorrStream(Stream):
         :rtype: CorrStream
         """
         cst_filt = CorrStream()
+        utcs = np.array([UTCDateTime(t) for t in utcs])
         for ctr in self:
             if not np.any(np.all(
                 [utcs > ctr.stats.corr_start, utcs < ctr.stats.corr_end],
diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index c15001d..a27a4e4 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -111,11 +111,13 @@ class Monitor(object):
             for step in opt_dump['co']['preProcessing']:
                 if 'stream_mask_at_utc' in step['function']:
                     startsstr = [
-                        t.format_fissures() for t in step['args']['starts']]
+                        UTCDateTime(t).format_fissures()
+                        for t in step['args']['starts']]
                     step['args']['starts'] = startsstr
                     if 'ends' in step['args']:
                         endsstr = [
-                            t.format_fissures() for t in step['args']['ends']]
+                            UTCDateTime(t).format_fissures()
+                            for t in step['args']['ends']]
                         step['args']['ends'] = endsstr
             with open(os.path.join(
                     logdir, 'params%s.txt' % tstr), 'w') as file:
-- 
2.43.0


From 0430c23c8b589949f76c3c8fc77c67229d25c3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:28 +0000
Subject: [PATCH 83/99] fix: keep stored responses of other channels and epochs
 when adding new ones

---
 src/seismic/trace_data/waveform.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index ec124d3..1dd83c3 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -391,9 +391,14 @@ class Store_Client(object):
             self.inventory += ninv
         else:
             self.inventory = ninv
-        fname = os.path.join(
-            self.inv_dir, f'{ninv[0].code}.{ninv[0][0].code}.xml')
-        ninv.write(fname, format="STATIONXML", validate=True)
+        for net in ninv:
+            for stat in net:
+                fname = os.path.join(
+                    self.inv_dir, f'{net.code}.{stat.code}.xml')
+                # The file might already hold other channels or epochs
+                self.inventory.select(
+                    network=net.code, station=stat.code).write(
+                        fname, format="STATIONXML", validate=True)
 
     def _generate_time_windows(
         self, network: str, station: str, channel: str, starttime: UTCDateTime,
-- 
2.43.0


From 0f0f77da3151ccf7f75ad97d6395a42a93a33874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:10 +0000
Subject: [PATCH 84/99] fix: do not write responses into a read only archive

---
 src/seismic/trace_data/waveform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/trace_data/waveform.py b/src/seismic/trace_data/waveform.py
index 1dd83c3..7cb30da 100644
--- a/src/seismic/trace_data/waveform.py
+++ b/src/seismic/trace_data/waveform.py
@@ -391,6 +391,8 @@ class Store_Client(object):
             self.inventory += ninv
         else:
             self.inventory = ninv
+        if self.read_only:
+            return
         for net in ninv:
             for stat in net:
                 fname = os.path.join(
-- 
2.43.0


From fafccc04704c1afe1f8f3e9de3cf2c44fa2a0132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:33 +0000
Subject: [PATCH 85/99] fix: figures could only be made where the British
 locale is installed

---
 src/seismic/plot/plot_dv.py       |  5 -----
 src/seismic/plot/plot_spectrum.py |  3 ---
 src/seismic/plot/plot_utils.py    | 11 +++++++----
 3 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/seismic/plot/plot_dv.py b/src/seismic/plot/plot_dv.py
index 5928551..bac5b8c 100644
--- a/src/seismic/plot/plot_dv.py
+++ b/src/seismic/plot/plot_dv.py
@@ -14,7 +14,6 @@ Last Modified: Monday, 4th March 2024 02:44:41 pm
 from datetime import datetime
 from typing import Tuple, List
 import os
-import locale
 
 import matplotlib as mpl
 from matplotlib import pyplot as plt
@@ -51,10 +50,6 @@ def plot_fancy_dv(
     ax.set_ylim(ylim)
     plt.ylabel(r'$\frac{dv}{v}$ [%]')
     plt.grid(True, axis='y')
-    try:
-        locale.setlocale(locale.LC_ALL, "en_GB.utf8")
-    except Exception:
-        locale.setlocale(locale.LC_ALL, "en_GB.utf-8")
     ax.xaxis.set_major_formatter(mdates.DateFormatter(dateformat))
     plt.xticks(rotation=25)
 
diff --git a/src/seismic/plot/plot_spectrum.py b/src/seismic/plot/plot_spectrum.py
index 919be0e..db55ac7 100644
--- a/src/seismic/plot/plot_spectrum.py
+++ b/src/seismic/plot/plot_spectrum.py
@@ -16,7 +16,6 @@ Last Modified: Monday, 21st August 2023 12:22:56 pm
 import os
 from datetime import datetime
 from typing import Tuple
-import locale
 
 import numpy as np
 from matplotlib import pyplot as plt
@@ -66,8 +65,6 @@ def plot_spct_series(
     # Mask nans
     S = np.ma.masked_invalid(S)
 
-    # Show dates in English format
-    locale.setlocale(locale.LC_ALL, "en_GB.utf8")
     # Create UTC time series
 
     set_mpl_params()
diff --git a/src/seismic/plot/plot_utils.py b/src/seismic/plot/plot_utils.py
index 0b7f143..fb95077 100644
--- a/src/seismic/plot/plot_utils.py
+++ b/src/seismic/plot/plot_utils.py
@@ -57,10 +57,13 @@ def set_mpl_params():
     }
     mpl.rcParams.update(params)
     # Show dates in English format
-    try:
-        locale.setlocale(locale.LC_ALL, "en_GB.utf8")
-    except Exception:
-        locale.setlocale(locale.LC_ALL, "en_GB.utf-8")
+    for name in ("en_GB.utf8", "en_GB.utf-8"):
+        try:
+            locale.setlocale(locale.LC_ALL, name)
+            break
+        except locale.Error:
+            # Not installed on this system
+            continue
 
 
 def remove_all(
-- 
2.43.0


From 0511f01a879ebc0328854a57375fbc687a7d0973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:41 +0000
Subject: [PATCH 86/99] fix: stations closer than nine kilometres could not be
 plotted by distance

---
 src/seismic/plot/plot_correlation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/seismic/plot/plot_correlation.py b/src/seismic/plot/plot_correlation.py
index 6a0a335..9674bb0 100644
--- a/src/seismic/plot/plot_correlation.py
+++ b/src/seismic/plot/plot_correlation.py
@@ -334,7 +334,7 @@ def sect_plot_dist(
     # Set label locations.
     # step = round((cst[-1].stats.dist - cst[0].stats.dist)/10000)
     # plt.yticks(np.arange(0, ctr.stats.dist/1000+step, step, dtype=int))
-    plt.yticks(np.linspace(0, ctr.stats.dist, 10, dtype=int))
+    plt.yticks(np.unique(np.linspace(0, ctr.stats.dist, 10, dtype=int)))
     return times
 
 
@@ -364,6 +364,6 @@ def heat_plot_corr_dist(
     plt.colorbar(
         ds, label='Correlation Coefficient', shrink=.6,
         orientation='horizontal')
-    plt.yticks(np.linspace(0, ctr.stats.dist, 10, dtype=int))
+    plt.yticks(np.unique(np.linspace(0, ctr.stats.dist, 10, dtype=int)))
     ax.set_ylabel(r"Distance [km]")
     return times
-- 
2.43.0


From 8724617ce28682c539f8fae8b0f17b05a64ad73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:37 +0000
Subject: [PATCH 87/99] fix: heatmap by distance misplaced reversed
 correlations with asymmetric lags

---
 src/seismic/plot/plot_correlation.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/seismic/plot/plot_correlation.py b/src/seismic/plot/plot_correlation.py
index 9674bb0..97d35f3 100644
--- a/src/seismic/plot/plot_correlation.py
+++ b/src/seismic/plot/plot_correlation.py
@@ -341,16 +341,26 @@ def sect_plot_dist(
 def heat_plot_corr_dist(
     cst: Stream, ax: plt.Axes, cmap: str, vmin: float, vmax: float,
         plot_reference_v: bool = False, ref_v: List[float] = [1, 2, 3]):
-    data = np.empty((cst.count(), cst[0].stats.npts))
     # y grid
     y = np.zeros((len(cst),))
     # x coords
     times = cst[0].times()
-    for ii, ctr in enumerate(cst):
+    # Lag zero does not have to be in the centre of the traces, i.e., the
+    # reversed ones can cover other lags
+    shift = -int(round((times[0] + times[-1])*cst[0].stats.sampling_rate))
+    first = np.array([shift*(ctr.stats.az >= 180) for ctr in cst])
+    if any(first):
+        n = len(times) + max(first) - min(first)
+        times = times[0] + (
+            np.arange(n) + min(first))/cst[0].stats.sampling_rate
+        first -= min(first)
+    data = np.full((cst.count(), len(times)), np.nan)
+    for ii, (ctr, jj) in enumerate(zip(cst, first)):
+        kk = slice(jj, jj + cst[0].stats.npts)
         if ctr.stats.az >= 180:
-            data[ii, :] = np.flip(ctr.data)
+            data[ii, kk] = np.flip(ctr.data)
         else:
-            data[ii, :] = ctr.data
+            data[ii, kk] = ctr.data
         y[ii] = ctr.stats.dist
     ds = plt.pcolormesh(
         times, y, data, shading='auto', cmap=cmap, vmin=vmin,
-- 
2.43.0


From dfbf3c6c14a173c8b0e3bf245ba1ab9588e79518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:05 +0000
Subject: [PATCH 88/99] fix: lag axis of sections by distance depended on the
 azimuth of the last correlation

---
 src/seismic/plot/plot_correlation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/seismic/plot/plot_correlation.py b/src/seismic/plot/plot_correlation.py
index 97d35f3..c2c0c5e 100644
--- a/src/seismic/plot/plot_correlation.py
+++ b/src/seismic/plot/plot_correlation.py
@@ -316,11 +316,13 @@ def sect_plot_dist(
     linewidth: float, plot_reference_v: bool = False,
         ref_v: List[float] = [1, 2, 3]) -> np.ndarray:
     # Sort by azimuth. W on left side of plot
+    lags = []
     for ii, ctr in enumerate(cst):
         ydata = ctr.data
         times = ctr.times()
         if ctr.stats.az >= 180:
             times = -1*times
+        lags.extend([min(times), max(times)])
         ytmp = ydata * scalingfactor + ctr.stats.dist
 
         ax.plot(times, ytmp, 'k', lw=linewidth, zorder=-ii + 0.1)
@@ -335,7 +337,7 @@ def sect_plot_dist(
     # step = round((cst[-1].stats.dist - cst[0].stats.dist)/10000)
     # plt.yticks(np.arange(0, ctr.stats.dist/1000+step, step, dtype=int))
     plt.yticks(np.unique(np.linspace(0, ctr.stats.dist, 10, dtype=int)))
-    return times
+    return np.sort(lags)
 
 
 def heat_plot_corr_dist(
-- 
2.43.0


From 57bdf0e52ca34273803ea545088bf155678a3d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:46 +0000
Subject: [PATCH 89/99] fix: figures in given axes were partly drawn in other
 ones

---
 src/seismic/plot/plot_correlation.py | 3 +++
 src/seismic/plot/plot_dv.py          | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/seismic/plot/plot_correlation.py b/src/seismic/plot/plot_correlation.py
index c2c0c5e..10a8c56 100644
--- a/src/seismic/plot/plot_correlation.py
+++ b/src/seismic/plot/plot_correlation.py
@@ -36,6 +36,7 @@ def plot_ctr(
         ax = plt.gca()
         axtmp = None
     else:
+        plt.sca(ax)
         fig = plt.gcf()
         bbox = ax.get_window_extent().transformed(
             fig.dpi_scale_trans.inverted())
@@ -147,6 +148,8 @@ def plot_cst(
     if ax is None:
         plt.figure(figsize=(8, 6))
         ax = plt.axes()  # zorder=9999999
+    else:
+        plt.sca(ax)
     if sort_by == 'distance':
         sort_by = 'dist'
     cst.sort(keys=[sort_by, 'network', 'station', 'channel'])
diff --git a/src/seismic/plot/plot_dv.py b/src/seismic/plot/plot_dv.py
index bac5b8c..9f50a63 100644
--- a/src/seismic/plot/plot_dv.py
+++ b/src/seismic/plot/plot_dv.py
@@ -35,6 +35,7 @@ def plot_fancy_dv(
         fig = plt.figure(figsize=(12, 8))
     else:
         fig = ax.get_figure()
+        plt.sca(ax)
 
     val = -dv.value[~np.isnan(dv.corr)]*100
     corr_starts = np.array(dv.stats.corr_start)
-- 
2.43.0


From bcbcfd00f8120ec2fc9d230ec1fee57d7a595a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:34 +0000
Subject: [PATCH 90/99] fix: corrupt files repeated the previous curve in
 figures of several results

---
 src/seismic/plot/plot_multidv.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/seismic/plot/plot_multidv.py b/src/seismic/plot/plot_multidv.py
index fc86762..734251a 100644
--- a/src/seismic/plot/plot_multidv.py
+++ b/src/seismic/plot/plot_multidv.py
@@ -85,6 +85,7 @@ def plot_multiple_dv(
             dv = read_dv(fi)
         except Exception:
             warn('Corrupt file %s discovered...skipping.' % fi)
+            continue
         val = -dv.value
         if plt_abs:
             val = abs(val)
-- 
2.43.0


From 1d51ca1a3ee99a8cc87db9128a29634d40c51047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:03 +0000
Subject: [PATCH 91/99] fix: figures of several results repeated or missed
 selected ones

---
 src/seismic/plot/plot_multidv.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/seismic/plot/plot_multidv.py b/src/seismic/plot/plot_multidv.py
index 734251a..d7bb0a2 100644
--- a/src/seismic/plot/plot_multidv.py
+++ b/src/seismic/plot/plot_multidv.py
@@ -68,7 +68,7 @@ def plot_multiple_dv(
     """
     set_mpl_params()
     if only_mean:
-        pat = os.path.join(indir, '*.av-*.npz')
+        pat = os.path.join(indir, '*.av*.npz')
     else:
         pat = os.path.join(indir, '*.npz')
     statcodes = []
@@ -76,10 +76,10 @@ def plot_multiple_dv(
     infiles = glob(pat)
     if statfilter is not None:
         statfilter = ['*%s*' % filt for filt in statfilter]
-        infiles_new = []
-        for filt in statfilter:
-            infiles_new.extend(fnmatch.filter(infiles, filt))
-        infiles = infiles_new
+        infiles = [
+            f for f in infiles if any(
+                fnmatch.fnmatch(os.path.basename(f), filt)
+                for filt in statfilter)]
     for fi in infiles:
         try:
             dv = read_dv(fi)
-- 
2.43.0


From 96ba07bf4f55300ee0af242338834e6fe82fcd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:30 +0000
Subject: [PATCH 92/99] fix: default names of figures overwrote earlier figures

---
 src/seismic/plot/plot_dv.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/seismic/plot/plot_dv.py b/src/seismic/plot/plot_dv.py
index 9f50a63..d588831 100644
--- a/src/seismic/plot/plot_dv.py
+++ b/src/seismic/plot/plot_dv.py
@@ -130,9 +130,8 @@ def plot_technical_dv(
         exist = os.path.isfile(os.path.join(save_dir, fname))
         i = 0
         while exist:
-            fname = "%s_%i" % (figure_file_name, i)
-            exist = os.path.isfile(os.path.join(save_dir,
-                                                fname + '_change.png'))
+            fname = "%s_%i_change.png" % (figure_file_name, i)
+            exist = os.path.isfile(os.path.join(save_dir, fname))
             i += 1
         figure_file_name = fname
 
-- 
2.43.0


From e9cb26bcac6443a0d2b12a380d22de9f8011167a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:18 +0000
Subject: [PATCH 93/99] fix: spectrograms with limits lacked the last window

---
 src/seismic/plot/plot_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/plot/plot_spectrum.py b/src/seismic/plot/plot_spectrum.py
index db55ac7..8102c04 100644
--- a/src/seismic/plot/plot_spectrum.py
+++ b/src/seismic/plot/plot_spectrum.py
@@ -86,7 +86,7 @@ def plot_spct_series(
     if tlim is not None:
         plt.xlim(tlim)
         ii = np.argmin(abs(t-tlim[0]))
-        jj = np.argmin(abs(t-tlim[1]))
+        jj = np.argmin(abs(t-tlim[1])) + 1
         t = t[ii:jj]
         S = S[:, ii:jj]
 
-- 
2.43.0


From 914f6c000b959818ce59f8193d9ecbf20ec8ac06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:31 +0000
Subject: [PATCH 94/99] fix: labels of velocity images in given axes were drawn
 in other ones

---
 src/seismic/monitor/spatial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/monitor/spatial.py b/src/seismic/monitor/spatial.py
index dada858..724da57 100644
--- a/src/seismic/monitor/spatial.py
+++ b/src/seismic/monitor/spatial.py
@@ -973,6 +973,8 @@ class DVGrid(object):
         if not ax:
             plt.figure()
             ax = plt.gca()
+        else:
+            plt.sca(ax)
         norm = mpl.colors.TwoSlopeNorm(vcenter=0)
         map = ax.imshow(
             -100*np.flipud(self.vel_change), interpolation='none',
-- 
2.43.0


From 54bb8c976f60d603cea5b853adf335a21f5c4517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:43 +0000
Subject: [PATCH 95/99] fix: normalised spectrograms with masked values were
 empty

---
 src/seismic/plot/plot_spectrum.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/seismic/plot/plot_spectrum.py b/src/seismic/plot/plot_spectrum.py
index 8102c04..9063b8b 100644
--- a/src/seismic/plot/plot_spectrum.py
+++ b/src/seismic/plot/plot_spectrum.py
@@ -95,20 +95,21 @@ def plot_spct_series(
         pass
     elif norm == 'f':
         if norm_method == 'linalg':
-            S = np.divide(S, np.linalg.norm(S, axis=1)[:, np.newaxis])
+            S = np.divide(
+                S, np.ma.sqrt(np.ma.sum(S**2, axis=1))[:, np.newaxis])
         elif norm_method == 'mean':
             S = np.divide(S, np.mean(S, axis=1)[:, np.newaxis])
         elif norm_method == 'median':
-            S = np.divide(S, np.median(S, axis=1)[:, np.newaxis])
+            S = np.divide(S, np.ma.median(S, axis=1)[:, np.newaxis])
         else:
             raise ValueError('Normalisation method %s unkown.' % norm_method)
     elif norm == 't':
         if norm_method == 'linalg':
-            S = np.divide(S, np.linalg.norm(S, axis=0))
+            S = np.divide(S, np.ma.sqrt(np.ma.sum(S**2, axis=0)))
         elif norm_method == 'mean':
             S = np.divide(S, np.mean(S, axis=0))
         elif norm_method == 'median':
-            S = np.divide(S, np.median(S, axis=0))
+            S = np.divide(S, np.ma.median(S, axis=0))
         else:
             raise ValueError('Normalisation method %s unkown.' % norm_method)
     else:
-- 
2.43.0


From e7cee3915266e7b7ae46fc34666ba810c5f80e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:22 +0000
Subject: [PATCH 96/99] fix: scatter of results with fewer than ten times could
 not be plotted

---
 src/seismic/plot/plot_dv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seismic/plot/plot_dv.py b/src/seismic/plot/plot_dv.py
index d588831..4161b6d 100644
--- a/src/seismic/plot/plot_dv.py
+++ b/src/seismic/plot/plot_dv.py
@@ -253,7 +253,7 @@ def plot_technical_dv(
         histt = np.tile(histt, dv.stretches.shape[0])
         histcorrs = np.reshape(dv.corrs, -1)
         histstretches = np.reshape(-dv.stretches, -1)
-        n_bins = np.flip(np.array(dv.sim_mat.shape))//10
+        n_bins = np.maximum(np.flip(np.array(dv.sim_mat.shape))//10, 1)
         # remove nans
         nanmask = ~np.isnan(histcorrs)
         histt = histt[nanmask]
-- 
2.43.0


From ace232eb2e9df88a58fe35abe8471a84f24c5e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:12 +0000
Subject: [PATCH 97/99] fix: header of a stack belongs to the traces that were
 stacked

---
 src/seismic/correlate/stream.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/seismic/correlate/stream.py b/src/seismic/correlate/stream.py
index 1f24ed8..605c261 100644
--- a/src/seismic/correlate/stream.py
+++ b/src/seismic/correlate/stream.py
@@ -1636,14 +1636,15 @@ def stack_st(st: CorrStream, weight: str, norm: bool = True) -> CorrTrace:
     :return: Single trace with stacked data
     :rtype: CorrTrace
     """
+    # only the longest traces are stacked; the header has to belong to them
+    npts = max(tr.stats.npts for tr in st)
+    st = st.select(npts=npts)
     st.sort(keys=['corr_start'])
     stats = st[0].stats.copy()
     stats['corr_end'] = max(tr.stats['corr_end'] for tr in st)
-    st.sort(keys=['npts'])
-    npts = st[-1].stats.npts
     stack = []
     dur = []  # duration of each trace
-    for tr in st.select(npts=npts):
+    for tr in st:
         stack.append(tr.data)
         dur.append(tr.stats.corr_end-tr.stats.corr_start)
     A = np.array(stack)
-- 
2.43.0


From 2344bd509a27b5aa7af1765a42eb3ee887490e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:42 +0000
Subject: [PATCH 98/99] fix: averages of components took stations of the same
 code in two networks for one

---
 src/seismic/monitor/monitor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/seismic/monitor/monitor.py b/src/seismic/monitor/monitor.py
index a27a4e4..e447bf4 100644
--- a/src/seismic/monitor/monitor.py
+++ b/src/seismic/monitor/monitor.py
@@ -434,7 +434,10 @@ class Monitor(object):
                     infiles.remove(f)
                     continue
                 components = f.split('.')[-2].split('-')
-                stations = f.split('.')[-3].split('-')
+                # stations of different networks can have the same code
+                networks = f.split('.')[-4].split('-')[-2:]
+                stations = ['.'.join(code) for code in zip(
+                    networks, f.split('.')[-3].split('-'))]
                 if method.lower() == 'autocomponents':
                     # Remove those from combined channels
                     if components[0] != components[1] \
-- 
2.43.0


From 0682626671db9808c0aacc0edcb69cdbc5106f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:49 +0000
Subject: [PATCH 99/99] fix: detrend_scipy accepts matrices in which some
 traces are missing completely

---
 src/seismic/correlate/preprocessing_td.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/seismic/correlate/preprocessing_td.py b/src/seismic/correlate/preprocessing_td.py
index 60381b8..81c8f6c 100644
--- a/src/seismic/correlate/preprocessing_td.py
+++ b/src/seismic/correlate/preprocessing_td.py
@@ -94,6 +94,8 @@ def detrend_scipy(A: np.ndarray, args: dict, params: dict) -> np.ndarray:
     if np.all(np.isnan(A)):
         return A
     for ii in range(A.shape[0]):
+        if np.all(np.isnan(A[ii])):
+            continue
         try:
             A[ii, ~np.isnan(A[ii])] = sp_detrend(
                 A[ii, ~np.isnan(A[ii])], axis=-1, overwrite_data=True,
-- 
2.43.0

