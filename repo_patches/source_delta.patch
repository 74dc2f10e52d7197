From 1fcfe90ee6917fdfc577ef4434fc818b0f5908e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 01/22] fix: hkSeq stacks every trace, not only the last one of
 each stream

---
 src/rfsed/hkSeqYeck.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rfsed/hkSeqYeck.py b/src/rfsed/hkSeqYeck.py
index 57ec82e..2b96d6c 100644
--- a/src/rfsed/hkSeqYeck.py
+++ b/src/rfsed/hkSeqYeck.py
@@ -192,8 +192,8 @@ def hkSeq(rfstreamSed, rfstreamMoho, preonset, HSed, KSed, VpSed, w1Sed,
                 amppsps = getamp(trdata, t, tpspsSed)
                 #--------------------------------------
                 stemp = (w1Sed * ampps) + (w2Sed * ampppps) - (w3Sed * amppsps)
-                sSed = stemp + s
-            stkSed[z,:] = [Htemp, Ktemp, sSed]
+                s = stemp + s
+            stkSed[z,:] = [Htemp, Ktemp, s]
             z = z + 1
     bmodSed = stkSed[np.argmax(stkSed[:,2]),:]
     #----------------------------------------------------------
@@ -252,9 +252,9 @@ def hkSeq(rfstreamSed, rfstreamMoho, preonset, HSed, KSed, VpSed, w1Sed,
                 ampppps = getamp(trdata, t, tpppsMoho)  
                 amppsps = getamp(trdata, t, tpspsMoho)
                 stemp = (w1Moho * ampps) + (w2Moho * ampppps) - (w3Moho * amppsps)
-                sMoho = stemp + s
+                s = stemp + s
                 #--------------------------------------
-            stkMoho[z,:] = [Htemp, Ktemp, sMoho]
+            stkMoho[z,:] = [Htemp, Ktemp, s]
             z = z + 1
     bmodMoho = stkMoho[np.argmax(stkMoho[:,2]),:]
     #----------------------------------------------------------
-- 
2.43.0


From f766bef6394d4c1b78be0d6bdde3186fce345553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 02/22] fix: hkSeq uses the sediment stream's own mean slowness
 for its stacked RF

---
 src/rfsed/hkSeqYeck.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rfsed/hkSeqYeck.py b/src/rfsed/hkSeqYeck.py
index 2b96d6c..3463ebc 100644
--- a/src/rfsed/hkSeqYeck.py
+++ b/src/rfsed/hkSeqYeck.py
@@ -158,6 +158,7 @@ def hkSeq(rfstreamSed, rfstreamMoho, preonset, HSed, KSed, VpSed, w1Sed,
         slow=tr.stats['slowness']
         slowness.append(slow)
     AvgSlow = np.mean(slowness)
+    AvgSlowSed = np.mean([tr.stats['slowness'] for tr in rfstreamSed])
     delta = rfstreamSed[0].stats.delta
     l = len(rfdata)
     t = np.arange(0, l)
@@ -179,7 +180,7 @@ def hkSeq(rfstreamSed, rfstreamMoho, preonset, HSed, KSed, VpSed, w1Sed,
                 rp = kilometer2degrees(1) * tr.stats['slowness']
                 if stack == True:
                     trdata = StackedRFSed[0].data
-                    rp = kilometer2degrees(1) * AvgSlow
+                    rp = kilometer2degrees(1) * AvgSlowSed
                 #--------------------------------------
                 term1= ((Ktemp/VpSed)**2 - rp**2)**0.5
                 term2= ((1/VpSed)**2 - rp**2)**0.5
@@ -285,7 +286,7 @@ def hkSeq(rfstreamSed, rfstreamMoho, preonset, HSed, KSed, VpSed, w1Sed,
                           'time':t, 'bestmodelSed':bmodSed, 
                           'stackvalueSed':stkSed,'bestmodelMoho':bmodMoho,
                           'stackvalueMoho':stkMoho, 'stack':stack, 'comp':comp, 
-                          'AvgSlow':AvgSlow, 'VpSed':VpSed, 'VpMoho':VpMoho, 
+                          'AvgSlow':AvgSlow, 'AvgSlowSed':AvgSlowSed, 'VpSed':VpSed, 'VpMoho':VpMoho, 
                           'HSed':HSed, 'KSed':KSed, 'HMoho':HMoho, 
                           'KMoho':KMoho, 'staname':staname}
     return SequentialHKResult  
@@ -344,7 +345,7 @@ def plotSeqhk(SequentialHKResult, savepath, g = [75.,10., 15., 2.5],
     stkSed=SequentialHKResult['stackvalueSed']
     if SequentialHKResult['stack'] == True:
         rfstream=SequentialHKResult['RFSedStack']
-        rp = kilometer2degrees(1) * SequentialHKResult['AvgSlow']
+        rp = kilometer2degrees(1) * SequentialHKResult['AvgSlowSed']
         t=SequentialHKResult['time']
         term1= ((K1/VpSed)**2 - rp**2)**0.5
         term2= ((1/VpSed)**2 - rp**2)**0.5
-- 
2.43.0


From 5ac2727a0941e6eae2a9fe502d43a4fa6e5a0cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 03/22] fix: hkSeq and hkSeqSynth return the Moho surface they
 computed, not one clipped at zero

---
 src/rfsed/SynthAnalysis.py | 7 ++++---
 src/rfsed/hkSeqYeck.py     | 6 ++----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/rfsed/SynthAnalysis.py b/src/rfsed/SynthAnalysis.py
index d4f55bb..719e923 100644
--- a/src/rfsed/SynthAnalysis.py
+++ b/src/rfsed/SynthAnalysis.py
@@ -375,9 +375,10 @@ def hkSeqSynth(rfSynthSed, rfSynthMoho, time, rayp, HSed, KSed, VpSed, w1Sed,
     bmodMoho = stkMoho[np.argmax(stkMoho[:,2]),:]
     #----------------------------------------------------------
     # plot Moho Stacking results
-    for i in range(len(stkMoho)):
-        if stkMoho[i,2] <= 0:
-            stkMoho[i,2] = 0
+    if rmneg == True:
+        for i in range(len(stkMoho)):
+            if stkMoho[i,2] <= 0:
+                stkMoho[i,2] = 0
     plt.tricontourf(stkMoho[:,0], stkMoho[:,1], stkMoho[:,2],60, cmap='jet')
     cb=plt.colorbar(format='%.3f', orientation="vertical")
     p1,=plt.plot(bmodMoho[0],bmodMoho[1], 'k+', mew=5, ms=15,\
diff --git a/src/rfsed/hkSeqYeck.py b/src/rfsed/hkSeqYeck.py
index 3463ebc..ac421c2 100644
--- a/src/rfsed/hkSeqYeck.py
+++ b/src/rfsed/hkSeqYeck.py
@@ -260,10 +260,8 @@ def hkSeq(rfstreamSed, rfstreamMoho, preonset, HSed, KSed, VpSed, w1Sed,
     bmodMoho = stkMoho[np.argmax(stkMoho[:,2]),:]
     #----------------------------------------------------------
     # plot Moho Stacking results
-    for i in range(len(stkMoho)):
-        if stkMoho[i,2] <= 0:
-            stkMoho[i,2] = 0
-    plt.tricontourf(stkMoho[:,0], stkMoho[:,1], stkMoho[:,2],60, cmap='jet')
+    plt.tricontourf(stkMoho[:,0], stkMoho[:,1], np.maximum(stkMoho[:,2], 0),
+                    60, cmap='jet')
     cb=plt.colorbar(format='%.3f', orientation="vertical")
     p1,=plt.plot(bmodMoho[0],bmodMoho[1], 'k+', mew=5, ms=15,\
         label='Best Model %s km %s Vp/Vs'%(bmodMoho[0], bmodMoho[1]))
-- 
2.43.0


From 1f5a021ae1740cc516eca48da8e40440471005aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 04/22] fix: plotting with rmneg no longer overwrites the
 stacking result it is given

---
 src/rfsed/SynthAnalysis.py | 6 +++---
 src/rfsed/hkSeqYeck.py     | 4 ++--
 src/rfsed/hkYu.py          | 2 +-
 src/rfsed/hkZhu.py         | 2 +-
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/rfsed/SynthAnalysis.py b/src/rfsed/SynthAnalysis.py
index 719e923..ec70356 100644
--- a/src/rfsed/SynthAnalysis.py
+++ b/src/rfsed/SynthAnalysis.py
@@ -566,7 +566,7 @@ def plothkSynth(HKResultSynth, savepath, g = [75.,10., 15., 2.5], rmneg = None,
         maxtime=10
         span=0.1
         timestep=1
-    stk = HKResultSynth['stackvalues']
+    stk = np.array(HKResultSynth['stackvalues'])
     H = HKResultSynth['H']
     K = HKResultSynth['K']
     plt.figure(figsize=(18, 6)) 
@@ -688,7 +688,7 @@ def plothkSeqSynth(SynthSeqHKResult, savepath, g = [75.,10., 15., 2.5],
     bmodSed = SynthSeqHKResult['bestmodelSed']
     H1 = bmodSed[0]
     K1 = bmodSed[1]
-    stkSed=SynthSeqHKResult['stackvalueSed']
+    stkSed=np.array(SynthSeqHKResult['stackvalueSed'])
     
     rfstream=SynthSeqHKResult['SynthRFSed']
     rp = SynthSeqHKResult['RayP']
@@ -771,7 +771,7 @@ def plothkSeqSynth(SynthSeqHKResult, savepath, g = [75.,10., 15., 2.5],
     bmodMoho = SynthSeqHKResult['bestmodelMoho']  
     H2 = bmodMoho[0]
     K2 = bmodMoho[1]
-    stkMoho=SynthSeqHKResult['stackvalueMoho']
+    stkMoho=np.array(SynthSeqHKResult['stackvalueMoho'])
     rfstream=SynthSeqHKResult['SynthRFMoho']
     rp = rp
     t=SynthSeqHKResult['time']
diff --git a/src/rfsed/hkSeqYeck.py b/src/rfsed/hkSeqYeck.py
index ac421c2..53bbb19 100644
--- a/src/rfsed/hkSeqYeck.py
+++ b/src/rfsed/hkSeqYeck.py
@@ -340,7 +340,7 @@ def plotSeqhk(SequentialHKResult, savepath, g = [75.,10., 15., 2.5],
     bmodSed = SequentialHKResult['bestmodelSed']
     H1 = bmodSed[0]
     K1 = bmodSed[1]
-    stkSed=SequentialHKResult['stackvalueSed']
+    stkSed=np.array(SequentialHKResult['stackvalueSed'])
     if SequentialHKResult['stack'] == True:
         rfstream=SequentialHKResult['RFSedStack']
         rp = kilometer2degrees(1) * SequentialHKResult['AvgSlowSed']
@@ -550,7 +550,7 @@ def plotSeqhk(SequentialHKResult, savepath, g = [75.,10., 15., 2.5],
     bmodMoho = SequentialHKResult['bestmodelMoho']  
     H2 = bmodMoho[0]
     K2 = bmodMoho[1]
-    stkMoho=SequentialHKResult['stackvalueMoho']
+    stkMoho=np.array(SequentialHKResult['stackvalueMoho'])
 
     if SequentialHKResult['stack'] == True:
         rfstream=SequentialHKResult['RFMohoStack']
diff --git a/src/rfsed/hkYu.py b/src/rfsed/hkYu.py
index 9c0855e..58b1144 100644
--- a/src/rfsed/hkYu.py
+++ b/src/rfsed/hkYu.py
@@ -258,7 +258,7 @@ def plothkYu(hkYuResult, savepath, g = [75.,10., 15., 2.5], rmneg = True,
     bmodSubSed = hkYuResult['bestmodelSubSed']
     H2 = bmodSubSed[0]
     K2 = bmodSubSed[1]
-    stkSubSed=hkYuResult['stackvaluesSubSed']
+    stkSubSed=np.array(hkYuResult['stackvaluesSubSed'])
     term1= ((K2/VpMoho)**2 - rp**2)**0.5
     term2= ((1/VpMoho)**2 - rp**2)**0.5
     tps = H2 * (term1 - term2)
diff --git a/src/rfsed/hkZhu.py b/src/rfsed/hkZhu.py
index 1b4b52a..1db65e5 100644
--- a/src/rfsed/hkZhu.py
+++ b/src/rfsed/hkZhu.py
@@ -277,7 +277,7 @@ def plothk(HKResult, savepath, g = [75.,10., 15., 2.5], rmneg = True,
         timestep=1
     H=HKResult['H']
     K=HKResult['K']
-    stk = HKResult['stackvalues']
+    stk = np.array(HKResult['stackvalues'])
     plt.figure(figsize=(18, 6)) 
     gs = gridspec.GridSpec(1, 3, width_ratios=[6,4,4])
     #-----Remove the stack values that is lower than zero------
-- 
2.43.0


From 9ed01cf98a43897dfcbeb9f5d52e851c45bec1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 05/22] fix: sequential stacking reports the Moho maximum, not
 the sediment one, for the Moho

---
 src/rfsed/SynthAnalysis.py | 3 ++-
 src/rfsed/hkSeqYeck.py     | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/rfsed/SynthAnalysis.py b/src/rfsed/SynthAnalysis.py
index ec70356..e80944f 100644
--- a/src/rfsed/SynthAnalysis.py
+++ b/src/rfsed/SynthAnalysis.py
@@ -395,7 +395,8 @@ def hkSeqSynth(rfSynthSed, rfSynthMoho, time, rayp, HSed, KSed, VpSed, w1Sed,
     plt.close("all")    
     H2 = bmodMoho[0]
     K2 = bmodMoho[1] 
-    print("Best Moho depth: ", H2, "Best Moho Vp/Vs:", K2, "Max stack: ", SSed)   
+    print("Best Moho depth: ", H2, "Best Moho Vp/Vs:", K2, "Max stack: ", 
+          bmodMoho[2])   
     SynthSeqHKResult = {'SynthRFSed': rfSynthSed, 'SynthRFMoho': rfSynthMoho, 
                         'time':t, 'bestmodelSed':bmodSed, 
                         'stackvalueSed':stkSed, 'bestmodelMoho':bmodMoho, 
diff --git a/src/rfsed/hkSeqYeck.py b/src/rfsed/hkSeqYeck.py
index 53bbb19..5ff8bf5 100644
--- a/src/rfsed/hkSeqYeck.py
+++ b/src/rfsed/hkSeqYeck.py
@@ -278,7 +278,7 @@ def hkSeq(rfstreamSed, rfstreamMoho, preonset, HSed, KSed, VpSed, w1Sed,
     H2 = bmodMoho[0]
     K2 = bmodMoho[1] 
     print("Best Moho depth: ", H2, "Best Moho Vp/Vs:", K2, 
-          "Max stack: ", SSed)   
+          "Max stack: ", bmodMoho[2])   
     SequentialHKResult = {'RFSed': rfstreamSed, 'RFSedStack': RFStackedSed,
                           'RFMoho': rfstreamMoho, 'RFMohoStack': RFStackedMoho,
                           'time':t, 'bestmodelSed':bmodSed, 
-- 
2.43.0


From 60cff58eccc55f7a6cc0234af3597433d1166723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 06/22] fix: hkYu default weights are assigned to the weights
 it uses

---
 src/rfsed/hkYu.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rfsed/hkYu.py b/src/rfsed/hkYu.py
index 58b1144..3e88ed5 100644
--- a/src/rfsed/hkYu.py
+++ b/src/rfsed/hkYu.py
@@ -122,9 +122,9 @@ def hkYu(FltResult, rayp, HSubSed, KSubSed, VpMoho, VpSed, VsSed, w1SubSed,
 
     if VpMoho is None: VpMoho = 6.5
     if VpSed is None: VpSed = 2.5
-    if w1SubSed is None: w1 = 0.6
-    if w2SubSed is None: w2 = 0.3
-    if w3SubSed is None: w3 = 0.1   
+    if w1SubSed is None: w1SubSed = 0.6
+    if w2SubSed is None: w2SubSed = 0.3
+    if w3SubSed is None: w3SubSed = 0.1   
     #----------------------------------------------------------
     rp=rayp
     Fltrf=FltResult['filteredrf']
-- 
2.43.0


From 2f97d72a9fc004b31fbe36526b796156f5347035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 07/22] fix: stack all traces of a station, whatever location
 code they carry

---
 src/rfsed/ReverbFilter.py             |  3 +--
 src/rfsed/WaveformFitting.py          | 10 ++++------
 src/rfsed/WaveformFittingMultiproc.py | 10 ++++------
 src/rfsed/hkSeqYeck.py                | 10 ++++------
 src/rfsed/hkZhu.py                    |  5 ++---
 5 files changed, 15 insertions(+), 23 deletions(-)

diff --git a/src/rfsed/ReverbFilter.py b/src/rfsed/ReverbFilter.py
index 0fc2063..6e5e827 100644
--- a/src/rfsed/ReverbFilter.py
+++ b/src/rfsed/ReverbFilter.py
@@ -97,8 +97,7 @@ def ResonanceFilt(rfstream, preonset):
     t = (delta *  t) - preonset 
     time=t
     dt=rfstream[0].stats.delta
-    StackedRF=rfstream.stack()
-    StackedData=StackedRF[0].data 
+    StackedData=np.mean([tr.data for tr in rfstream], axis=0)
     #---------------------------------------------
     # Build the frequency vector
     #---------------------------------------------
diff --git a/src/rfsed/WaveformFitting.py b/src/rfsed/WaveformFitting.py
index 731fc1b..1286236 100644
--- a/src/rfsed/WaveformFitting.py
+++ b/src/rfsed/WaveformFitting.py
@@ -124,9 +124,8 @@ def WaveformFitting(rfstream, preonset, HSed, VpSed, VpCrust, rayp, KMoho,
     t = np.arange(0, l)
     t = (delta *  t) - preonset 
     staname = rfstream[0].stats.station
-    Stacked=rfstream.select(component='R').stack()
-    StackedRF=Stacked[0]
-    StackedData=StackedRF.data
+    StackedData=np.mean([tr.data for tr in rfstream.select(component='R')],
+                        axis=0)
     Stdd=np.std(StackedData, axis=0)
     StddPlus = StackedData + Stdd
     StddMinus = StackedData - Stdd
@@ -358,9 +357,8 @@ def PlotWaveformFitting(WaveformFitting, wtCorr, wtRMSE, wtPG, savepath, format)
         t = (np.arange(0, len(rfstream[0].data), 1) * delta) + b
         preonset=abs(t[0]) 
         staname = rfstream[0].stats.station
-        Stacked=rfstream.select(component='R').stack()
-        StackedRF=Stacked[0]
-        StackedData=StackedRF.data
+        StackedData=np.mean([tr.data for tr in rfstream.select(component='R')],
+                            axis=0)
         Stdd=np.std(StackedData, axis=0)
         StddPlus = StackedData + Stdd
         StddMinus = StackedData - Stdd
diff --git a/src/rfsed/WaveformFittingMultiproc.py b/src/rfsed/WaveformFittingMultiproc.py
index 185c62d..f63708c 100644
--- a/src/rfsed/WaveformFittingMultiproc.py
+++ b/src/rfsed/WaveformFittingMultiproc.py
@@ -110,9 +110,8 @@ def WaveformPara(rfstream, preonset, HSed, VpSed, VpCrust, rayp, KMoho,
     t = np.arange(0, l)
     t = (delta *  t) - preonset 
     staname = rfstream[0].stats.station
-    Stacked=rfstream.select(component='R').stack()
-    StackedRF=Stacked[0]
-    StackedData=StackedRF.data
+    StackedData=np.mean([tr.data for tr in rfstream.select(component='R')],
+                        axis=0)
     Stdd=np.std(StackedData, axis=0)
     StddPlus = StackedData + Stdd
     StddMinus = StackedData - Stdd
@@ -428,9 +427,8 @@ def plotbestmodel(WaveformResults, ModelParams, wtCorr, wtRMSE, wtPG,
         b = rfstream[0].stats.starttime - rfstream[0].stats.onset
         t = (np.arange(0, len(rfstream[0].data), 1) * delta) + b
         staname = rfstream[0].stats.station
-        Stacked=rfstream.select(component='R').stack()
-        StackedRF=Stacked[0]
-        StackedData=StackedRF.data
+        StackedData=np.mean([tr.data for tr in rfstream.select(component='R')],
+                            axis=0)
         Stdd=np.std(StackedData, axis=0)
         StddPlus = StackedData + Stdd
         StddMinus = StackedData - Stdd
diff --git a/src/rfsed/hkSeqYeck.py b/src/rfsed/hkSeqYeck.py
index 5ff8bf5..5433397 100644
--- a/src/rfsed/hkSeqYeck.py
+++ b/src/rfsed/hkSeqYeck.py
@@ -146,10 +146,8 @@ def hkSeq(rfstreamSed, rfstreamMoho, preonset, HSed, KSed, VpSed, w1Sed,
     if w2Sed is None: w2Sed = 0.3
     if w3Sed is None: w3Sed = 0.1  
     if stack is None: stack = False 
-    StackedRFSed=rfstreamSed.stack()
-    RFStackedSed=StackedRFSed[0].data
-    StackedRFMoho=rfstreamMoho.stack()
-    RFStackedMoho=StackedRFMoho[0].data
+    RFStackedSed=np.mean([tr.data for tr in rfstreamSed], axis=0)
+    RFStackedMoho=np.mean([tr.data for tr in rfstreamMoho], axis=0)
     staname = rfstreamSed[0].stats.station
     comp =  rfstreamSed[0].stats.channel
     rfdata = rfstreamSed[0].data
@@ -179,7 +177,7 @@ def hkSeq(rfstreamSed, rfstreamMoho, preonset, HSed, KSed, VpSed, w1Sed,
                 delta= tr.stats.delta
                 rp = kilometer2degrees(1) * tr.stats['slowness']
                 if stack == True:
-                    trdata = StackedRFSed[0].data
+                    trdata = RFStackedSed
                     rp = kilometer2degrees(1) * AvgSlowSed
                 #--------------------------------------
                 term1= ((Ktemp/VpSed)**2 - rp**2)**0.5
@@ -237,7 +235,7 @@ def hkSeq(rfstreamSed, rfstreamMoho, preonset, HSed, KSed, VpSed, w1Sed,
                 delta= tr.stats.delta
                 rp = kilometer2degrees(1) * tr.stats['slowness']
                 if stack == True:
-                    trdata = StackedRFMoho[0].data
+                    trdata = RFStackedMoho
                     rp=kilometer2degrees(1) * AvgSlow 
                 #--------------------------------------
                 term1 = ((K1/VpSed)**2-(rp)**2)**0.5
diff --git a/src/rfsed/hkZhu.py b/src/rfsed/hkZhu.py
index 1db65e5..2a97ee2 100644
--- a/src/rfsed/hkZhu.py
+++ b/src/rfsed/hkZhu.py
@@ -119,8 +119,7 @@ def hk(rfstream, preonset, H, K, Vp, w1, w2, w3, layer, stack=False):
     if w3 is None: w3 = 0.1   
     if layer is None: layer = 'Moho'
     if stack is None: stack = False
-    StackedRF=rfstream.stack()
-    RFStacked=StackedRF[0].data
+    RFStacked=np.mean([tr.data for tr in rfstream], axis=0)
     slowness=[]
     for tr in rfstream:
         slow=tr.stats['slowness']
@@ -148,7 +147,7 @@ def hk(rfstream, preonset, H, K, Vp, w1, w2, w3, layer, stack=False):
                 delta= tr.stats.delta
                 rp = kilometer2degrees(1) * tr.stats['slowness']
                 if stack == True:
-                    trdata = StackedRF[0].data
+                    trdata = RFStacked
                     rp = kilometer2degrees(1) * AvgSlow
                 #--------------------------------------
                 term1= ((Ktemp/Vp)**2 - rp**2)**0.5
-- 
2.43.0


From 76e6286ffab5d600065d926f6b9850baa7183d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 08/22] fix: plothk and plotSeqhk close the figure of their
 last plot

---
 src/rfsed/hkSeqYeck.py | 3 ++-
 src/rfsed/hkZhu.py     | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rfsed/hkSeqYeck.py b/src/rfsed/hkSeqYeck.py
index 5433397..03e4982 100644
--- a/src/rfsed/hkSeqYeck.py
+++ b/src/rfsed/hkSeqYeck.py
@@ -741,4 +741,5 @@ def plotSeqhk(SequentialHKResult, savepath, g = [75.,10., 15., 2.5],
         filename = "%s/%s_%s_%s.%s"%(savepath, staname, comp, 'Moho', format)
         plt.savefig(filename , format=format, transparent=False, dpi=250, 
                     bbox_inches = 'tight', pad_inches=0.1)
-        plt.show()
\ No newline at end of file
+        plt.show()
+        plt.close('all')
diff --git a/src/rfsed/hkZhu.py b/src/rfsed/hkZhu.py
index 2a97ee2..839dd54 100644
--- a/src/rfsed/hkZhu.py
+++ b/src/rfsed/hkZhu.py
@@ -440,3 +440,4 @@ def plothk(HKResult, savepath, g = [75.,10., 15., 2.5], rmneg = True,
         plt.savefig(filename , format=format, transparent=False,\
             dpi=250, bbox_inches = 'tight', pad_inches=0.1)
         plt.show()
+        plt.close('all')
-- 
2.43.0


From eb507d1e29281dc45c126e5b576e365a643283ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 09/22] fix: iterative deconvolution shifts by the preonset
 without a singular rescaling

---
 src/rfsed/synrf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rfsed/synrf.py b/src/rfsed/synrf.py
index f38f6fc..af7e992 100644
--- a/src/rfsed/synrf.py
+++ b/src/rfsed/synrf.py
@@ -103,10 +103,10 @@ def correl(R, W, nfft):
 
 def phaseshift(x, nfft, dt, preonset):
     Xf = fft(x, nfft)
-    shift_i = int(preonset / dt)
-    p = 2 * pi * np.arange(1, nfft + 1) * shift_i / nfft
+    shift_i = int(round(preonset / dt))
+    p = 2 * pi * np.arange(0, nfft) * shift_i / nfft
     Xf = Xf * np.vectorize(complex)(np.cos(p), -np.sin(p))
-    x = ifft(Xf, nfft) / np.cos(2 * pi * shift_i / nfft)
+    x = ifft(Xf, nfft)
     x = x.real
     return x
 
-- 
2.43.0


From dde291bf5b6d74e53009997827e4692b683501e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 10/22] fix: deconv_iterative returns the rms of every
 iteration it made

---
 src/rfsed/synrf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rfsed/synrf.py b/src/rfsed/synrf.py
index af7e992..7b46037 100644
--- a/src/rfsed/synrf.py
+++ b/src/rfsed/synrf.py
@@ -204,7 +204,7 @@ def deconv_iterative(uin, win, dt, nt=None, preonset=10, gaussian=2.0,
     p_flt = gfilter(p0, nfft, gaussF, dt)
     p_flt = phaseshift(p_flt, nfft, dt, preonset)
     RFI = p_flt[0:nt]
-    rms = rms[0:it - 1]
+    rms = rms[0:it]
 
     return RFI, rms, it 
     
-- 
2.43.0


From ca067fb82fd267755ed0ef93f59c7123d2fb4175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 11/22] fix: deconv_iterative starts iterating whatever the
 amplitude of the data

---
 src/rfsed/synrf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rfsed/synrf.py b/src/rfsed/synrf.py
index 7b46037..e8430d9 100644
--- a/src/rfsed/synrf.py
+++ b/src/rfsed/synrf.py
@@ -174,7 +174,7 @@ def deconv_iterative(uin, win, dt, nt=None, preonset=10, gaussian=2.0,
 
     it = 0
     sumsq_i = 1
-    d_error = 100 * powerU + minderr
+    d_error = 100 + minderr if powerU > 0 else 0
     maxlag = 0.5 * nfft
     # print('\tMax Spike Display is ' + str((maxlag) * dt))
 
-- 
2.43.0


From 58cf66ea8cdfbbdeff782ab7c5cb7f33ba635db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 12/22] fix: run_deconvolution filters a copy, so that calling
 it again gives the same RF

---
 src/rfsed/synrf.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rfsed/synrf.py b/src/rfsed/synrf.py
index e8430d9..32de927 100644
--- a/src/rfsed/synrf.py
+++ b/src/rfsed/synrf.py
@@ -65,6 +65,7 @@
 # patents cannot be used to render the program non-free.
 
 
+import copy
 import numpy as np
 import obspy
 from obspy.io.sac import SACTrace
@@ -571,11 +572,14 @@ class synrf():
             Deconvolved receiver function in ``Obspy.Stream`` type.
 
         """	
+        data = copy.copy(self)
+        data.rstream = self.rstream.copy()
+        data.zstream = self.zstream.copy()
         if pre_filt is not None:
-            self.filter(*pre_filt)
+            data.filter(*pre_filt)
         rfstream = Stream()
         for i, _ in enumerate(self.rayp):
-            rftr = RFTrace.deconvolve(self.rstream[i], self.zstream[i], 
+            rftr = RFTrace.deconvolve(data.rstream[i], data.zstream[i], 
                                       preonset=preonset, gaussian=gaussian, 
                                       **kwargs)
             rfstream.append(rftr)
-- 
2.43.0


From 571b86ec6a84b4520b2e66f34d525b59a83ebee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 13/22] fix: synrf input errors are caught by except ValueError

---
 src/rfsed/synrf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rfsed/synrf.py b/src/rfsed/synrf.py
index 32de927..5d3b5bc 100644
--- a/src/rfsed/synrf.py
+++ b/src/rfsed/synrf.py
@@ -74,7 +74,7 @@ from math import pi
 from numpy.fft import fft, ifft
 
 from obspy import Trace, Stream
-class ValueError(Exception): ...
+class ValueError(ValueError): ...
 
 def gaussFilter(dt, nft, gaussian):
     df = 1.0 / (nft * dt)
-- 
2.43.0


From 3e7f2f42d66a50f3b6ea8c83b564c791dc21d472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 14/22] fix: ExtractEq looks for an event in every trace of a
 file, not only the first

---
 src/rfsed/ExtractEq.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/rfsed/ExtractEq.py b/src/rfsed/ExtractEq.py
index 8474ebd..be5218d 100644
--- a/src/rfsed/ExtractEq.py
+++ b/src/rfsed/ExtractEq.py
@@ -119,11 +119,10 @@ def ExtractEq(datapath, filename, catalog, stalat, stalon, Request_window):
     Datast = Stream()
     for i in datafiles:
         st = read(i)
-        filestart=st[0].stats.starttime
-        fileend = st[0].stats.endtime
         for t in time_window:
                 onset = t[2]
-                if UTC(t[0]) >= filestart and UTC(t[1]) <= fileend:
+                if any(UTC(t[0]) >= tr.stats.starttime and 
+                       UTC(t[1]) <= tr.stats.endtime for tr in st):
                         Eqdata=read(i, starttime=UTC(t[0]), 
                                         endtime = UTC(t[1]))
                         Eqdata[0].stats.onset=onset
-- 
2.43.0


From e84c8aec64ff46b9192737046fc3254ade436be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 15/22] fix: Get_Eqtimes_multiproc ends its workers when one of
 them fails

---
 src/rfsed/ExtractEqMultiproc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rfsed/ExtractEqMultiproc.py b/src/rfsed/ExtractEqMultiproc.py
index 691a2b0..b859aee 100644
--- a/src/rfsed/ExtractEqMultiproc.py
+++ b/src/rfsed/ExtractEqMultiproc.py
@@ -168,8 +168,8 @@ def Get_Eqtimes_multiproc(catalog, nproc):
     """
 
     nproc = nproc
-    pool = multiprocessing.get_context('fork').Pool(nproc)
-    timewindow = pool.map(Eq_times, catalog)
+    with multiprocessing.get_context('fork').Pool(nproc) as pool:
+        timewindow = pool.map(Eq_times, catalog)
     pool.close()
     pool.join()
     return timewindow
-- 
2.43.0


From 075fc8f108c228dbfeff90fc7d01dd613fcdb30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 16/22] fix: examples and tests can be installed again after
 their folder was removed

---
 src/rfsed/util.py | 44 ++++++++++++++++----------------------------
 1 file changed, 16 insertions(+), 28 deletions(-)

diff --git a/src/rfsed/util.py b/src/rfsed/util.py
index fd7ec1b..b17b4e6 100644
--- a/src/rfsed/util.py
+++ b/src/rfsed/util.py
@@ -29,7 +29,19 @@ from rf.rfstream import read_rf
 from pkg_resources import resource_filename
 import os
 import pkg_resources as _pkg_resources
-from distutils import dir_util as _dir_util
+import shutil
+
+def _copy_tree(source, target):
+    """
+    Copy the files below a directory, overwriting those that already exist.
+    """
+
+    for root, _, files in os.walk(source):
+        subdir = os.path.normpath(os.path.join(target, 
+                                               os.path.relpath(root, source)))
+        os.makedirs(subdir, exist_ok=True)
+        for name in files:
+            shutil.copy2(os.path.join(root, name), os.path.join(subdir, name))
 
 def rfMoho_example():
     """
@@ -236,29 +248,13 @@ def install_examples(path="./rfsed_examples"):
     examples_path = _pkg_resources.resource_filename(
         "rfsed", "examples")
 
-    _dir_util.copy_tree(
-        examples_path,
-        subpath_example,
-        preserve_mode=1,
-        preserve_times=1,
-        preserve_symlinks=1,
-        update=0,
-        verbose=1,
-        dry_run=0)
+    _copy_tree(examples_path, subpath_example)
     
     subpath_data = os.path.join(path, "data")
     data_path = _pkg_resources.resource_filename(
         "rfsed", "data")
 
-    _dir_util.copy_tree(
-        data_path,
-        subpath_data,
-        preserve_mode=1,
-        preserve_times=1,
-        preserve_symlinks=1,
-        update=0,
-        verbose=1,
-        dry_run=0)
+    _copy_tree(data_path, subpath_data)
 
 def install_rfsed_tests(path="./rfsed_tests"):
     """
@@ -280,13 +276,5 @@ def install_rfsed_tests(path="./rfsed_tests"):
     examples_path = _pkg_resources.resource_filename(
         "rfsed", "examples/rfsed_tests")
 
-    _dir_util.copy_tree(
-        examples_path,
-        path,
-        preserve_mode=1,
-        preserve_times=1,
-        preserve_symlinks=1,
-        update=0,
-        verbose=1,
-        dry_run=0)
+    _copy_tree(examples_path, path)
     
\ No newline at end of file
-- 
2.43.0


From 1ed07cb3460b4b5ad7384925993ee4b90c49bce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:08 +0000
Subject: [PATCH 17/22] fix: do not start more waveform fitting workers than
 processors

Every worker needs about 1 GB. With nproc well above the number of processors
(the project's own tests use 25) the machine runs out of memory, a worker is
killed and run_waveformfitting then waits for its result for ever.
---
 src/rfsed/WaveformFittingMultiproc.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rfsed/WaveformFittingMultiproc.py b/src/rfsed/WaveformFittingMultiproc.py
index f63708c..1fe7648 100644
--- a/src/rfsed/WaveformFittingMultiproc.py
+++ b/src/rfsed/WaveformFittingMultiproc.py
@@ -257,9 +257,12 @@ def run_waveformfitting(nproc, HMoho, ModelParams):
     >>> WaveformFitResults = run_waveformfitting(nproc, HMoho, ModelParams)
     """
 
-    nproc = nproc
+    # More workers than processors only exhaust the memory, and the pool never
+    # recovers from a worker killed for lack of memory
+    workers = multiprocessing.cpu_count()
+    if nproc is not None: workers = min(nproc, workers)
     HMoho = HMoho
-    with multiprocessing.Pool(nproc) as pool:
+    with multiprocessing.Pool(workers) as pool:
         inputparams=((inputparams, ModelParams) for inputparams in 
                      itertools.product(HMoho))
         WaveformFitResults=pool.map(WaveformFit_multiproc, inputparams)
-- 
2.43.0


From 2a63226267af3961f8be255232250e416612daec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:08 +0000
Subject: [PATCH 18/22] fix: find the P onset for waveform fitting when no
 sample time is exactly zero

delta*i - preonset is not exactly zero for e.g. preonset 3 s at 10 Hz or for a
preonset between samples, and the fitting then failed with IndexError.
---
 src/rfsed/WaveformFitting.py          | 4 ++--
 src/rfsed/WaveformFittingMultiproc.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rfsed/WaveformFitting.py b/src/rfsed/WaveformFitting.py
index 1286236..69cebcf 100644
--- a/src/rfsed/WaveformFitting.py
+++ b/src/rfsed/WaveformFitting.py
@@ -132,8 +132,8 @@ def WaveformFitting(rfstream, preonset, HSed, VpSed, VpCrust, rayp, KMoho,
     preonset = abs(t[0])
     n=len(StackedData)
     # Waveform Fitting start from t = 0 to t = 25 seconds
-    tzero=np.where(t==0)[0]
-    tzero=int(tzero[0])  
+    # (the sample closest to t = 0, which rounding may leave just off zero)
+    tzero=int(np.argmin(np.abs(t)))
     start=tzero
     end= 25/delta
     end=tzero + int(end)
diff --git a/src/rfsed/WaveformFittingMultiproc.py b/src/rfsed/WaveformFittingMultiproc.py
index 1fe7648..0bbade7 100644
--- a/src/rfsed/WaveformFittingMultiproc.py
+++ b/src/rfsed/WaveformFittingMultiproc.py
@@ -118,8 +118,8 @@ def WaveformPara(rfstream, preonset, HSed, VpSed, VpCrust, rayp, KMoho,
     preonset=abs(t[0])
     n=len(StackedData)
     # Waveform Fitting start from t = 0 to t = 25 seconds
-    tzero=np.where(t==0)[0]
-    tzero=int(tzero[0])  
+    # (the sample closest to t = 0, which rounding may leave just off zero)
+    tzero=int(np.argmin(np.abs(t)))
     start=tzero
     end= 25/delta
     end=tzero + int(end)
-- 
2.43.0


From 2713b6129085a76a6dd0c8e1917f6f9312f90f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:41 +0000
Subject: [PATCH 19/22] fix: draw the autocorrelation into its own figure, not
 one left open

---
 src/rfsed/ReverbFilter.py  | 1 +
 src/rfsed/SynthAnalysis.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/rfsed/ReverbFilter.py b/src/rfsed/ReverbFilter.py
index 6e5e827..2cf64b8 100644
--- a/src/rfsed/ReverbFilter.py
+++ b/src/rfsed/ReverbFilter.py
@@ -180,6 +180,7 @@ def plotfiltrf(FilteredRF, savepath, format = 'jpg'):
     autoc=FilteredRF['autoc']
     staname=FilteredRF['staname']
     # Plot Autocorrelation
+    plt.figure()
     plt.plot(time,autoc)
     plt.xlabel('Time (s)')
     plt.ylabel('Amplitude')
diff --git a/src/rfsed/SynthAnalysis.py b/src/rfsed/SynthAnalysis.py
index e80944f..37d4f6a 100644
--- a/src/rfsed/SynthAnalysis.py
+++ b/src/rfsed/SynthAnalysis.py
@@ -886,6 +886,7 @@ def plotfiltSynthrf(FilteredRF, savepath, format = 'jpg'):
     autoc=FilteredRF['autoc']
     suff='SyntheticRF'
     # Plot Autocorrelation
+    plt.figure()
     plt.plot(time,autoc)
     plt.xlabel('Time (s)')
     plt.ylabel('Amplitude')
-- 
2.43.0


From 234e92a7a71c9aff1f6e20fa35f5e87bf1459790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:43 +0000
Subject: [PATCH 20/22] fix: plotbestmodel reports the results it is given when
 their depths are not those of the parameters

---
 src/rfsed/WaveformFittingMultiproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rfsed/WaveformFittingMultiproc.py b/src/rfsed/WaveformFittingMultiproc.py
index 0bbade7..af3c83b 100644
--- a/src/rfsed/WaveformFittingMultiproc.py
+++ b/src/rfsed/WaveformFittingMultiproc.py
@@ -336,7 +336,7 @@ def plotbestmodel(WaveformResults, ModelParams, wtCorr, wtRMSE, wtPG,
     if wtCorr==None: wtCorr=0.4
     if wtRMSE==None: wtRMSE=0.4
     if wtPG==None: wtPG=0.2
-    AllSolutions = np.zeros(((len(HMoho)*len(KMoho)), 5))
+    AllSolutions = np.zeros((sum(len(i) for i in WaveformResults), 5))
     z=0
     for i in WaveformResults:
         for j in i:
-- 
2.43.0


From 65d5afab3f8e985432e3543d0829dfd540e84262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:48 +0000
Subject: [PATCH 21/22] fix: the H-K analyses draw their result into a figure
 of their own, not one left open

---
 src/rfsed/SynthAnalysis.py | 2 ++
 src/rfsed/hkSeqYeck.py     | 1 +
 src/rfsed/hkYu.py          | 1 +
 src/rfsed/hkZhu.py         | 1 +
 4 files changed, 5 insertions(+)

diff --git a/src/rfsed/SynthAnalysis.py b/src/rfsed/SynthAnalysis.py
index 37d4f6a..d943eea 100644
--- a/src/rfsed/SynthAnalysis.py
+++ b/src/rfsed/SynthAnalysis.py
@@ -167,6 +167,7 @@ def hkSynth(Synthrf, time, rayp, H, K, Vp, w1, w2, w3, layer = None):
             z = z + 1
     bmod = stk[np.argmax(stk[:,2]),:]
     #Show the best model
+    plt.figure()
     plt.tricontourf(stk[:,0], stk[:,1], stk[:,2],60, cmap='jet')
     cb=plt.colorbar(format='%.3f', orientation="vertical")
     p1,=plt.plot(bmod[0],bmod[1], 'k+', mew=5, ms=15,
@@ -320,6 +321,7 @@ def hkSeqSynth(rfSynthSed, rfSynthMoho, time, rayp, HSed, KSed, VpSed, w1Sed,
     bmodSed = stkSed[np.argmax(stkSed[:,2]),:]
     #----------------------------------------------------------
     # Plot Sediment Stacking results
+    plt.figure()
     plt.tricontourf(stkSed[:,0], stkSed[:,1], stkSed[:,2],60, cmap='jet')
     cb=plt.colorbar(format='%.3f', orientation="vertical")
     p1,=plt.plot(bmodSed[0],bmodSed[1], 'k+', mew=5, ms=15,\
diff --git a/src/rfsed/hkSeqYeck.py b/src/rfsed/hkSeqYeck.py
index 03e4982..86b32e2 100644
--- a/src/rfsed/hkSeqYeck.py
+++ b/src/rfsed/hkSeqYeck.py
@@ -197,6 +197,7 @@ def hkSeq(rfstreamSed, rfstreamMoho, preonset, HSed, KSed, VpSed, w1Sed,
     bmodSed = stkSed[np.argmax(stkSed[:,2]),:]
     #----------------------------------------------------------
     # Plot Sediment Stacking results
+    plt.figure()
     plt.tricontourf(stkSed[:,0], stkSed[:,1], stkSed[:,2],60, cmap='jet')
     cb=plt.colorbar(format='%.3f', orientation="vertical")
     p1,=plt.plot(bmodSed[0],bmodSed[1], 'k+', mew=5, ms=15,\
diff --git a/src/rfsed/hkYu.py b/src/rfsed/hkYu.py
index 3e88ed5..2fe2743 100644
--- a/src/rfsed/hkYu.py
+++ b/src/rfsed/hkYu.py
@@ -168,6 +168,7 @@ def hkYu(FltResult, rayp, HSubSed, KSubSed, VpMoho, VpSed, VsSed, w1SubSed,
             z = z + 1
     bmodSubSed = stkSubSed[np.argmax(stkSubSed[:,2]),:]
     #Show the best model
+    plt.figure()
     plt.tricontourf(stkSubSed[:,0], stkSubSed[:,1], stkSubSed[:,2],60, 
                     cmap='jet')
     cb=plt.colorbar(format='%.3f', orientation="vertical")
diff --git a/src/rfsed/hkZhu.py b/src/rfsed/hkZhu.py
index 839dd54..8980d72 100644
--- a/src/rfsed/hkZhu.py
+++ b/src/rfsed/hkZhu.py
@@ -169,6 +169,7 @@ def hk(rfstream, preonset, H, K, Vp, w1, w2, w3, layer, stack=False):
             z = z + 1
     bmod = stk[np.argmax(stk[:,2]),:]
     #Show the best model
+    plt.figure()
     plt.tricontourf(stk[:,0], stk[:,1], stk[:,2],60, cmap='jet')
     cb=plt.colorbar(format='%.3f', orientation="vertical")
     p1,=plt.plot(bmod[0],bmod[1], 'k+', mew=5, ms=15,\
-- 
2.43.0


From e695b47339b64b6d10356bdb6559e3754d88952d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:42 +0000
Subject: [PATCH 22/22] fix: show the whole searched grid in the waveform
 fitting plots

The panel limits came from the first and last grid values, which crop the
surface (and the best model) when the grid is not in ascending order;
plotbestmodel already uses the extremes.
---
 src/rfsed/WaveformFitting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rfsed/WaveformFitting.py b/src/rfsed/WaveformFitting.py
index 69cebcf..9d8afa0 100644
--- a/src/rfsed/WaveformFitting.py
+++ b/src/rfsed/WaveformFitting.py
@@ -323,10 +323,10 @@ def PlotWaveformFitting(WaveformFitting, wtCorr, wtRMSE, wtPG, savepath, format)
         elif i==3:
             Criteria=GoF
             BestModel=BestModel_GoF
-        minMoho=HMoho[0]
-        maxMoho=HMoho[-1]
-        minVpVs=KMoho[0]
-        maxVpVs=KMoho[-1]
+        minMoho=min(HMoho)
+        maxMoho=max(HMoho)
+        minVpVs=min(KMoho)
+        maxVpVs=max(KMoho)
         # ----------------------------------------------------------
         # Plot the Solutions
         # ----------------------------------------------------------
-- 
2.43.0

