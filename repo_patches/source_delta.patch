From 4389a27c9cfc2c2419be710c188e2be451d64071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 01/80] fix: PriorityFloodFlowdirs gave NoData cells on the
 raster's edge a flow direction

---
 include/richdem/depressions/Barnes2014.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/richdem/depressions/Barnes2014.hpp b/include/richdem/depressions/Barnes2014.hpp
index db97e2d..6b6594a 100644
--- a/include/richdem/depressions/Barnes2014.hpp
+++ b/include/richdem/depressions/Barnes2014.hpp
@@ -530,6 +530,10 @@ void PriorityFloodFlowdirs_Barnes2014(const Array2D<elev_t> &elevations, Array2D
     open.pop();
     processed_cells++;
 
+    //Edge cells were given a direction above without checking their elevation
+    if(elevations.isNoData(c.x,c.y))
+      flowdirs(c.x,c.y)=flowdirs.noData();
+
     for(int no=1;no<=8;no++){
       int n=d8_order[no];
       int nx=c.x+d8x[n];
-- 
2.43.0


From 03b0aba16369797dfe31a4651a62950e6e16e578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:19 +0000
Subject: [PATCH 02/80] fix: Lindsay2016 selective/constrained breaching with
 filling left depressions once the last pit had been visited

---
 include/richdem/depressions/Lindsay2016.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/richdem/depressions/Lindsay2016.hpp b/include/richdem/depressions/Lindsay2016.hpp
index d16c015..3ec245f 100644
--- a/include/richdem/depressions/Lindsay2016.hpp
+++ b/include/richdem/depressions/Lindsay2016.hpp
@@ -375,7 +375,8 @@ void Lindsay2016(
       }
 
       --total_pits;
-      if(total_pits==0)
+      //The fill below needs every cell's flood order, so in that case we can't stop early
+      if(total_pits==0 && (mode==COMPLETE_BREACHING || !fill_depressions))
         break;
     }
 
-- 
2.43.0


From 4e15db96f7f9dc6247dfb8e7369992e686f0da94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:17 +0000
Subject: [PATCH 03/80] fix: d8_flats_alter_dem stepped double elevations with
 the float nextafterf

---
 include/richdem/flats/flat_resolution.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/richdem/flats/flat_resolution.hpp b/include/richdem/flats/flat_resolution.hpp
index 6edc9c4..35dba49 100644
--- a/include/richdem/flats/flat_resolution.hpp
+++ b/include/richdem/flats/flat_resolution.hpp
@@ -562,10 +562,8 @@ void d8_flats_alter_dem(
       bool higher[9];
       for(int n=1;n<=8;++n)
         higher[n]=elevations(x,y)>elevations(x+d8x[n],y+d8y[n]);
-      //TODO: nextafterf is the floating point version; should use an
-      //overloaded version instead to be able to handle both double and float
       for(int i=0;i<flat_mask(x,y);++i)
-        elevations(x,y)=nextafterf(elevations(x,y),std::numeric_limits<U>::infinity());
+        elevations(x,y)=std::nextafter(elevations(x,y),std::numeric_limits<U>::infinity());
       for(int n=1;n<=8;++n){
         int nx=x+d8x[n];
         int ny=y+d8y[n];
-- 
2.43.0


From d7610d2f49d4b9c0485accc4595a3043eaae2de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:15 +0000
Subject: [PATCH 04/80] fix: FM_OCallaghan did not compile with assertions
 enabled

---
 include/richdem/flowmet/OCallaghan1984.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/flowmet/OCallaghan1984.hpp b/include/richdem/flowmet/OCallaghan1984.hpp
index 148e5d9..f90cda6 100644
--- a/include/richdem/flowmet/OCallaghan1984.hpp
+++ b/include/richdem/flowmet/OCallaghan1984.hpp
@@ -69,7 +69,7 @@ void FM_OCallaghan(
 
     props(x,y,0) = HAS_FLOW_GEN;
 
-    assert(elevations(ci)>=elevations(ci+elevations.nshift(lowest_n))); //Ensure flow goes downhill
+    assert(elevations(x,y)>=elevations(x+dx[lowest_n],y+dy[lowest_n])); //Ensure flow goes downhill
 
     props(x,y,lowest_n) = 1;
   }
-- 
2.43.0


From 699699895384f853a637b1e8d5628fa64bfdc637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:15 +0000
Subject: [PATCH 05/80] fix: D4 and Rho4 flow metrics stored proportions under
 D4 neighbour numbers where D8 ones are read

---
 include/richdem/flowmet/Fairfield1991.hpp  | 3 ++-
 include/richdem/flowmet/OCallaghan1984.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/richdem/flowmet/Fairfield1991.hpp b/include/richdem/flowmet/Fairfield1991.hpp
index 3452927..f8d76c6 100644
--- a/include/richdem/flowmet/Fairfield1991.hpp
+++ b/include/richdem/flowmet/Fairfield1991.hpp
@@ -72,7 +72,8 @@ void FM_FairfieldLeymarie(const Array2D<elev_t> &elevations, Array3D<float> &pro
       continue;
 
     props(x,y,0)          = HAS_FLOW_GEN;
-    props(x,y,greatest_n) = 1;
+    //props always uses the D8 numbering of neighbours
+    props(x,y,(topo==Topology::D4) ? 2*greatest_n-1 : greatest_n) = 1;
 
     assert(elevations(x,y)>=elevations(x+dx[greatest_n],y+dy[greatest_n])); //Ensure flow goes downhill
   }
diff --git a/include/richdem/flowmet/OCallaghan1984.hpp b/include/richdem/flowmet/OCallaghan1984.hpp
index f90cda6..f2a1323 100644
--- a/include/richdem/flowmet/OCallaghan1984.hpp
+++ b/include/richdem/flowmet/OCallaghan1984.hpp
@@ -71,7 +71,8 @@ void FM_OCallaghan(
 
     assert(elevations(x,y)>=elevations(x+dx[lowest_n],y+dy[lowest_n])); //Ensure flow goes downhill
 
-    props(x,y,lowest_n) = 1;
+    //props always uses the D8 numbering of neighbours
+    props(x,y,(topo==Topology::D4) ? 2*lowest_n-1 : lowest_n) = 1;
   }
   progress.stop();
 }
-- 
2.43.0


From b9e5b17e6ea925bd3adee723fdd69704dd435852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:13 +0000
Subject: [PATCH 06/80] fix: D-infinity flow due east was indistinguishable
 from no flow

---
 include/richdem/flowmet/dinf_flowdirs.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/richdem/flowmet/dinf_flowdirs.hpp b/include/richdem/flowmet/dinf_flowdirs.hpp
index dfc2a97..560d6e8 100644
--- a/include/richdem/flowmet/dinf_flowdirs.hpp
+++ b/include/richdem/flowmet/dinf_flowdirs.hpp
@@ -40,7 +40,8 @@ static const double af[8] = { 1., -1.,  1., -1.,  1., -1., 1., -1.};
   @param[in] x            x-coordinate of cell to determine flow direction for
   @param[in] y            y-coordinate of cell to determine flow direction for
 
-  @return A floating-point value between [0,2*Pi) indicating flow direction
+  @return A floating-point value between (0,2*Pi] indicating flow direction, or
+          NO_FLOW
 */
 template <class T>
 static float dinf_FlowDir(const Array2D<T> &elevations, const int x, const int y){
@@ -57,7 +58,7 @@ static float dinf_FlowDir(const Array2D<T> &elevations, const int x, const int y
     else if(x==0)
       return 4*M_PI/4;  //D8: 1
     else if(x==elevations.width()-1)
-      return 0*M_PI/4;  //D8: 5
+      return 8*M_PI/4;  //D8: 5
     else if(y==0)
       return 2*M_PI/4;  //D8: 3
     else if(y==elevations.height()-1)
@@ -111,6 +112,10 @@ static float dinf_FlowDir(const Array2D<T> &elevations, const int x, const int y
   if(nmax!=-1)
     rg = (af[nmax]*rmax+ac[nmax]*M_PI/2);
 
+  //Due east is 2*Pi, since 0 means that there is no flow
+  if(nmax!=-1 && rg==NO_FLOW)
+    rg = 2*M_PI;
+
   return rg;
 }
 
-- 
2.43.0


From 91ddd8f0fd50d258b78672ea15b06c64e6e3a8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 07/80] fix: FM_Tarboton gave the larger share of flow to the
 neighbour further from the flow direction

---
 include/richdem/flowmet/Tarboton1997.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/richdem/flowmet/Tarboton1997.hpp b/include/richdem/flowmet/Tarboton1997.hpp
index 54bf8dd..b2c87b5 100644
--- a/include/richdem/flowmet/Tarboton1997.hpp
+++ b/include/richdem/flowmet/Tarboton1997.hpp
@@ -136,8 +136,8 @@ void FM_Tarboton(
     } else if(rmax==dang){
       props(x,y,nwrap(nmax+1)) = 1;
     } else {
-      props(x,y,nmax)          = rmax/(M_PI/4.);
-      props(x,y,nwrap(nmax+1)) = 1-rmax/(M_PI/4.);      
+      props(x,y,nmax)          = 1-rmax/(M_PI/4.);
+      props(x,y,nwrap(nmax+1)) = rmax/(M_PI/4.);      
     }
   }
   progress.stop();
-- 
2.43.0


From 0a435473f6052933aaa030cba0f985cccfb5f3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:12 +0000
Subject: [PATCH 08/80] fix: Array2D::from_cache was read uninitialised when an
 array was copied

---
 include/richdem/common/Array2D.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 46fd58e..6374f4f 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -126,7 +126,7 @@ class Array2D {
 
   ///If TRUE, loadData() loads data from the cache assuming  the Native format.
   ///Otherwise, it assumes it is loading from a GDAL file.
-  bool from_cache;
+  bool from_cache = false;
 
   #ifdef USEGDAL
   ///TODO
-- 
2.43.0


From 2728f8883390766616f6928729a1ccdb3feaabfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:12 +0000
Subject: [PATCH 09/80] fix: dinf_upslope_area gave no area to cells with
 neither inflow nor outflow

---
 include/richdem/methods/dinf_methods.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/richdem/methods/dinf_methods.hpp b/include/richdem/methods/dinf_methods.hpp
index 6535315..e265ca9 100644
--- a/include/richdem/methods/dinf_methods.hpp
+++ b/include/richdem/methods/dinf_methods.hpp
@@ -191,8 +191,6 @@ void dinf_upslope_area(
     for(int x=0;x<flowdirs.width();x++)
       if(flowdirs(x,y)==flowdirs.noData())
         continue;
-      else if(flowdirs(x,y)==NO_FLOW)
-        continue;
       else if(dependency(x,y)==0)
         sources.emplace(x,y);
   }
-- 
2.43.0


From b63f19da45e632dc2ec704f863798ca6c76363e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:12 +0000
Subject: [PATCH 10/80] fix: dinf_upslope_area gave the larger share of flow to
 the neighbour further from the flow direction

---
 include/richdem/methods/dinf_methods.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/richdem/methods/dinf_methods.hpp b/include/richdem/methods/dinf_methods.hpp
index e265ca9..50f31cc 100644
--- a/include/richdem/methods/dinf_methods.hpp
+++ b/include/richdem/methods/dinf_methods.hpp
@@ -76,12 +76,12 @@ static void where_do_i_flow(float flowdir, int &nhigh, int &nlow){
 }
 
 //This reacts correctly if the flow direction wedge number exceeds 7.
-static void area_proportion(float flowdir, int nhigh, int nlow, float &phigh, float &plow){
+static void area_proportion(float flowdir, int /*nhigh*/, int nlow, float &phigh, float &plow){
   if(nlow==-1){
     phigh = 1;
     plow  = 0;
   } else {
-    phigh = (nhigh*(M_PI/4.0)-flowdir)/(M_PI/4.0);
+    phigh = (flowdir-nlow*(M_PI/4.0))/(M_PI/4.0);
     plow  = 1-phigh;
   }
 
-- 
2.43.0


From fd5a0769ea203ca284f3feab67b1dba1f432a115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 11/80] fix: data races on the dependency counts of
 d8_flow_accum and dinf_upslope_area

---
 include/richdem/methods/d8_methods.hpp   |  1 +
 include/richdem/methods/dinf_methods.hpp | 10 ++++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/richdem/methods/d8_methods.hpp b/include/richdem/methods/d8_methods.hpp
index f2010c6..5925b0e 100644
--- a/include/richdem/methods/d8_methods.hpp
+++ b/include/richdem/methods/d8_methods.hpp
@@ -87,6 +87,7 @@ void d8_flow_accum(const Array2D<T> &flowdirs, Array2D<U> &area){
 
       //Neighbour is valid and is part of the grid. The neighbour depends on this
       //cell, so increment its dependency count.
+      #pragma omp atomic
       ++dependency(nx,ny);
     }
   }
diff --git a/include/richdem/methods/dinf_methods.hpp b/include/richdem/methods/dinf_methods.hpp
index 50f31cc..0dce847 100644
--- a/include/richdem/methods/dinf_methods.hpp
+++ b/include/richdem/methods/dinf_methods.hpp
@@ -170,9 +170,15 @@ void dinf_upslope_area(
         nly = y+dinf_dy[n_low];
       }
       if( n_low!=-1 && flowdirs.inGrid(nlx,nly) && flowdirs(nlx,nly)!=flowdirs.noData() )
-        dependency(nlx,nly)++;
+        {
+          #pragma omp atomic
+          dependency(nlx,nly)++;
+        }
       if( flowdirs.inGrid(nhx,nhy) && flowdirs(nhx,nhy)!=flowdirs.noData() )
-        dependency(nhx,nhy)++;
+        {
+          #pragma omp atomic
+          dependency(nhx,nhy)++;
+        }
     }
   }
   RDLOG_TIME_USE<<"Succeeded in = "<<progress.stop()<<" s";
-- 
2.43.0


From c831895008bfce01d70083047c6a27960dfc8afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 12/80] fix: misc_methods.hpp and dinf_methods.hpp excluded
 each other, and the latter lacked an include

---
 include/richdem/methods/dinf_methods.hpp | 1 +
 include/richdem/misc/misc_methods.hpp    | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/richdem/methods/dinf_methods.hpp b/include/richdem/methods/dinf_methods.hpp
index 0dce847..d00fa49 100644
--- a/include/richdem/methods/dinf_methods.hpp
+++ b/include/richdem/methods/dinf_methods.hpp
@@ -17,6 +17,7 @@
 #include <richdem/common/constants.hpp>
 #include <richdem/common/ProgressBar.hpp>
 #include <richdem/common/grid_cell.hpp>
+#include <richdem/flowmet/dinf_flowdirs.hpp>
 
 namespace richdem {
 
diff --git a/include/richdem/misc/misc_methods.hpp b/include/richdem/misc/misc_methods.hpp
index 445ba0c..66b0728 100644
--- a/include/richdem/misc/misc_methods.hpp
+++ b/include/richdem/misc/misc_methods.hpp
@@ -7,8 +7,8 @@
   Tarboton (1997). It incorporates minor alterations and additional safe-guards
   described in Barnes (2013, TODO).
 */
-#ifndef _richdem_dinf_methods_hpp_
-#define _richdem_dinf_methods_hpp_
+#ifndef _richdem_misc_methods_hpp_
+#define _richdem_misc_methods_hpp_
 
 #include <richdem/common/Array2D.hpp>
 #include <richdem/common/constants.hpp>
-- 
2.43.0


From 539491478532caaecb47f9d58989c1ff2e833c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 13/80] fix: seed_rand seeded the first thread with 0 whatever
 the seed

---
 src/random.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/random.cpp b/src/random.cpp
index 74c0f8c..b11eb2c 100644
--- a/src/random.cpp
+++ b/src/random.cpp
@@ -39,7 +39,9 @@ void seed_rand(uint64_t seed){
       std::seed_seq q(std::begin(seed_data), std::end(seed_data));
       rand_engine().seed(q);
     } else {
-      rand_engine().seed( seed*rd_get_thread_num() );
+      //Every combination of seed and thread needs a stream of its own
+      std::seed_seq q{static_cast<std::uint32_t>(seed), static_cast<std::uint32_t>(seed>>32), static_cast<std::uint32_t>(rd_get_thread_num())};
+      rand_engine().seed(q);
     }
   }
 }
-- 
2.43.0


From 677720ff168de8cb02c2b17c92edd72ed3ebb837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 14/80] fix: normal_rand kept a value across seed_rand and
 SetRandomState, so Gaussian draws were not reproducible

---
 src/random.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/random.cpp b/src/random.cpp
index b11eb2c..2277c26 100644
--- a/src/random.cpp
+++ b/src/random.cpp
@@ -62,9 +62,10 @@ double uniform_rand_real(double from, double thru){
 
 
 double normal_rand(double mean, double stddev){
-  static std::array<std::normal_distribution<double>, PRNG_THREAD_MAX> d;
-  using parm_t = std::normal_distribution<double>::param_type;
-  return d[rd_get_thread_num()]( rand_engine(), parm_t{mean, stddev} );
+  //Not static: std::normal_distribution keeps a value it has drawn for the next
+  //call, which would survive seed_rand() and SetRandomState()
+  std::normal_distribution<double> d(mean, stddev);
+  return d( rand_engine() );
 }
 
 RandomEngineState SaveRandomState(){
-- 
2.43.0


From 12a7d2926af6290ddeb4d097a18e9cafc61b1ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 15/80] fix: the aspect of a flat surface was 270 (west) rather
 than -1

---
 include/richdem/methods/terrain_attributes.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/richdem/methods/terrain_attributes.hpp b/include/richdem/methods/terrain_attributes.hpp
index 97635a6..224cc4e 100644
--- a/include/richdem/methods/terrain_attributes.hpp
+++ b/include/richdem/methods/terrain_attributes.hpp
@@ -224,7 +224,7 @@ static inline TA_Setup_Curves_Vars TerrainCurvatureSetup(const Array2D<T> &eleva
 }
 
 ///@brief  Calculates aspect in degrees in the manner of Horn 1981
-///@return Aspect in degrees in the manner of Horn 1981
+///@return Aspect in degrees in the manner of Horn 1981; -1 indicates a flat surface
 //ArcGIS doesn't use cell size for aspect calculations.
 template<class T>
 static inline double Terrain_Aspect(const Array2D<T> &elevations, const int x, const int y, const float zscale){
@@ -233,6 +233,8 @@ static inline double Terrain_Aspect(const Array2D<T> &elevations, const int x, c
   //See p. 18 of Horn (1981)
   double dzdx       = ( (tsv.c+2*tsv.f+tsv.i) - (tsv.a+2*tsv.d+tsv.g) ) / 8 / elevations.getCellLengthX();
   double dzdy       = ( (tsv.g+2*tsv.h+tsv.i) - (tsv.a+2*tsv.b+tsv.c) ) / 8 / elevations.getCellLengthY();
+  if(dzdx==0 && dzdy==0)
+    return -1; //A flat surface faces nowhere
   double the_aspect = 180.0/M_PI*atan2(dzdy,-dzdx);
   if(the_aspect<0)
     return 90-the_aspect;
-- 
2.43.0


From 0fc8509a65a3a78b29488d29209f3e9d329ced34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:16 +0000
Subject: [PATCH 16/80] fix: flipHorz started one cell beyond the row's end

---
 include/richdem/common/Array2D.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 6374f4f..d756b65 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -724,7 +724,7 @@ class Array2D {
   void flipHorz(){
     for(xy_t y=0;y<view_height;y++){
       T* start = &_data[xyToI(0,y)];
-      T* end   = &_data[xyToI(view_width,y)];
+      T* end   = &_data[xyToI(view_width-1,y)];
       while(start<end){
         std::swap(*start,*end);
         start++;
-- 
2.43.0


From 64438d70ad1b208c29de7747f283e259b7a81b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:10 +0000
Subject: [PATCH 17/80] fix: the radix heap shifted by a negative amount for
 bucket 0

---
 include/richdem/common/radix_heap.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/richdem/common/radix_heap.hpp b/include/richdem/common/radix_heap.hpp
index 774f41f..dad7b9c 100644
--- a/include/richdem/common/radix_heap.hpp
+++ b/include/richdem/common/radix_heap.hpp
@@ -121,13 +121,17 @@ class bucket_flags {
   void set_empty(size_t bucket) {
     assert(bucket <= num_buckets);
 
-    flags_ &= ~((unsigned_key_type(1) << (bucket - 1)) * !!bucket);
+    if (bucket == 0) return;  // Bucket 0 has no flag
+
+    flags_ &= ~(unsigned_key_type(1) << (bucket - 1));
   }
 
   void set_non_empty(unsigned int bucket) {
     assert(bucket <= num_buckets);
 
-    flags_ |= (unsigned_key_type(1) << (bucket - 1)) * !!bucket;
+    if (bucket == 0) return;  // Bucket 0 has no flag
+
+    flags_ |= unsigned_key_type(1) << (bucket - 1);
   }
 
   void clear() {
-- 
2.43.0


From 273a25dfa4d0d859b98a9380b11601a2254e0f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:10 +0000
Subject: [PATCH 18/80] fix: GetDepressionHierarchy threw out of a parallel
 region on bad labels, terminating the program

---
 .../richdem/depressions/depression_hierarchy.hpp    | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/richdem/depressions/depression_hierarchy.hpp b/include/richdem/depressions/depression_hierarchy.hpp
index 101fc9d..02ad9c1 100644
--- a/include/richdem/depressions/depression_hierarchy.hpp
+++ b/include/richdem/depressions/depression_hierarchy.hpp
@@ -283,15 +283,14 @@ GetDepressionHierarchy(const Array2D<elev_t>& dem, Array2D<dh_label_t>& label, A
   // begin looking for depressions. We add all of these ocean cells to the
   // priority queue now.
   uint64_t ocean_cells = 0;
-#pragma omp parallel for collapse(2) reduction(+ : ocean_cells) reduction(merge : ocean_seeds)
+  bool has_bad_label   = false;  // An exception may not leave a parallel region
+#pragma omp parallel for collapse(2) reduction(+ : ocean_cells) reduction(merge : ocean_seeds) reduction(|| : has_bad_label)
   for (int y = 0; y < dem.height(); y++)
     for (int x = 0; x < dem.width(); x++) {
       // Ensure the input only has OCEAN and NO_DEP labels.
       if (label(x, y) != OCEAN) {
-        if (label(x, y) != NO_DEP) {
-          throw std::runtime_error(
-              "Label array given to GetDepressionHierarchy must contain only NO_DEP and OCEAN labels!");
-        }
+        if (label(x, y) != NO_DEP)
+          has_bad_label = true;
         continue;
       }
 
@@ -309,6 +308,10 @@ GetDepressionHierarchy(const Array2D<elev_t>& dem, Array2D<dh_label_t>& label, A
       }
     }
 
+  if (has_bad_label) {
+    throw std::runtime_error("Label array given to GetDepressionHierarchy must contain only NO_DEP and OCEAN labels!");
+  }
+
   if (ocean_cells == 0) {
     throw std::runtime_error("No OCEAN cells found, could not make a DepressionHierarchy!");
   }
-- 
2.43.0


From 7b93f2e57a69cb097dc065f5fe9a8e142b49f50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 19/80] fix: FillSpillMerge took flow into the raster's first
 cell for a pit

---
 include/richdem/depressions/fill_spill_merge.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/depressions/fill_spill_merge.hpp b/include/richdem/depressions/fill_spill_merge.hpp
index 1e33158..3141392 100644
--- a/include/richdem/depressions/fill_spill_merge.hpp
+++ b/include/richdem/depressions/fill_spill_merge.hpp
@@ -289,7 +289,7 @@ static void MoveWaterIntoPits(
       assert(n>=0);
     }
 
-    if(n == NO_FLOW){    //If this is a pit cell, move the water to the appropriate depression's water_vol.
+    if(ndir == NO_FLOW){ //If this is a pit cell, move the water to the appropriate depression's water_vol.
       //Note that OCEAN cells have NO_FLOW so this will route water to the OCEAN
       //depression. This can be used to find out how much total run-off made it
       //into the ocean.
-- 
2.43.0


From 70f0c51c42a9f6a5dc193e3e381263b70e3ec74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 20/80] fix: FillSpillMerge failed an assertion when rounding
 left a little more water than the sill's water table takes

---
 include/richdem/depressions/fill_spill_merge.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/richdem/depressions/fill_spill_merge.hpp b/include/richdem/depressions/fill_spill_merge.hpp
index 3141392..a9f7f40 100644
--- a/include/richdem/depressions/fill_spill_merge.hpp
+++ b/include/richdem/depressions/fill_spill_merge.hpp
@@ -1029,8 +1029,9 @@ double DetermineWaterLevel(
     //volume or we wouldn't be in this function. But we assert that it is so.
     assert(fp_le(water_vol,current_dep_volume-sill_wtd));
 
-    //Fill in as much of this cell's water table as we can
-    const double fill_amount = water_vol - current_dep_volume;
+    //Fill in as much of this cell's water table as we can. Rounding may leave
+    //slightly more water than that.
+    const double fill_amount = std::min<double>(water_vol - current_dep_volume, -sill_wtd);
     assert(fill_amount>=0);
     assert(fill_amount<=-sill_wtd);
     sill_wtd += fill_amount;
-- 
2.43.0


From 1ad2a77818f1312d3a4d391cf98ed2fd854d9862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:32 +0000
Subject: [PATCH 21/80] fix: rounding could give a depression a negative
 volume, failing an assertion in FillSpillMerge

---
 include/richdem/depressions/depression_hierarchy.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/richdem/depressions/depression_hierarchy.hpp b/include/richdem/depressions/depression_hierarchy.hpp
index 02ad9c1..f47fac4 100644
--- a/include/richdem/depressions/depression_hierarchy.hpp
+++ b/include/richdem/depressions/depression_hierarchy.hpp
@@ -895,6 +895,8 @@ void CalculateTotalVolumes(DepressionHierarchy<elev_t>& deps) {
     // clauses have additional volume above their spill elevations that cannot be
     // counted simply by adding their volumes to their parent depression.
     dep.dep_vol = dep.cell_count * static_cast<double>(dep.out_elev) - dep.total_elevation;
+    if (dep.dep_vol < 0)  // Rounding can make the volume of an empty depression slightly negative
+      dep.dep_vol = 0;
 
     assert(dep.lchild == NO_VALUE || fp_le(deps.at(dep.lchild).dep_vol + deps.at(dep.rchild).dep_vol, dep.dep_vol));
   }
-- 
2.43.0


From 78b99b6af9c32ac99e74956eab8d9e3aa64dc1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 22/80] fix: assigning to a ManagedVector that wraps external
 memory freed that memory

---
 include/richdem/common/ManagedVector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/richdem/common/ManagedVector.hpp b/include/richdem/common/ManagedVector.hpp
index 69b9d7c..2e7fa96 100644
--- a/include/richdem/common/ManagedVector.hpp
+++ b/include/richdem/common/ManagedVector.hpp
@@ -111,6 +111,8 @@ class ManagedVector {
   template<class U>
   ManagedVector<T>& operator=(ManagedVector<U>&& other) noexcept {
     //std::cerr<<"ManagedVector move assignment of "<<((void*)other._data.get())<<std::endl;
+    if(!_owned)
+      _data.release();   //Memory we do not own must not be freed
     _size        = other.size();
     _data        = std::move(other._data);
     _owned       = other._owned;
-- 
2.43.0


From edc7fa5c320ff8a8a640715c126663380f49fbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 23/80] fix: Array2D::transpose scrambled the raster instead of
 transposing it

---
 include/richdem/common/Array2D.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index d756b65..c8e6266 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -738,11 +738,12 @@ class Array2D {
   */
   void transpose(){
     RDLOG_WARN<<"transpose() is an experimental feature.";
-    std::vector<T> new_data(view_width*view_height);
+    const ManagedVector<T> old_data(_data);
     for(xy_t y=0;y<view_height;y++)
     for(xy_t x=0;x<view_width;x++)
-      std::swap(_data[(i_t)x*(i_t)view_height+(i_t)y], _data[xyToI(x,y)]);
+      _data[(i_t)x*(i_t)view_height+(i_t)y] = old_data[xyToI(x,y)];
     std::swap(view_width,view_height);
+    _nshift = {{0,-1,-view_width-1,-view_width,-view_width+1,1,view_width+1,view_width,view_width-1}};
     //TODO: Offsets?
   }
 
-- 
2.43.0


From f6a94f6ccb5a9b9aa4b2f0b3742d084f0358d9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 24/80] fix: Array2D::countval read unallocated memory when the
 raster is not loaded in RAM

---
 include/richdem/common/Array2D.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index c8e6266..c80474f 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -558,7 +558,7 @@ class Array2D {
   */
   i_t countval(const T val) const {
     i_t count=0;
-    for(unsigned int i=0;i<size();i++)
+    for(std::size_t i=0;i<_data.size();i++)
       if(_data[i]==val)
         count++;
     return count;
-- 
2.43.0


From a8892935c86257beda4cac0ab44af739b50f7044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 25/80] fix: Array2D::numDataCells returned a stale count after
 the raster had changed

---
 include/richdem/common/Array2D.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index c80474f..8916384 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -930,7 +930,7 @@ class Array2D {
     @return Returns the number of cells which are not NoData.
   */
   i_t numDataCells() const {
-    if(num_data_cells==NO_I)
+    if(num_data_cells==NO_I || !empty()) //The cells may have changed since they were last counted
       countDataCells();
     return num_data_cells;
   }
-- 
2.43.0


From 3b14ad018d249b471f7ff19d25658e7a2bcf594b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:21 +0000
Subject: [PATCH 26/80] fix: Array3D::numDataCells counted neighbour values of
 the first cells instead of cells

---
 include/richdem/common/Array3D.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/richdem/common/Array3D.hpp b/include/richdem/common/Array3D.hpp
index e1d3b47..4fbe0df 100644
--- a/include/richdem/common/Array3D.hpp
+++ b/include/richdem/common/Array3D.hpp
@@ -323,7 +323,7 @@ class Array3D {
   void countDataCells() const {
     num_data_cells = 0;
     for(unsigned int i=0;i<size();i++)
-      if(data[i]!=no_data)
+      if(getIN(i,0)!=no_data)
         num_data_cells++;
   }
 
@@ -333,7 +333,7 @@ class Array3D {
     @return Returns the number of cells which are not NoData.
   */
   i_t numDataCells() const {
-    if(num_data_cells==NO_I)
+    if(num_data_cells==NO_I || !empty()) //The cells may have changed since they were last counted
       countDataCells();
     return num_data_cells;
   }
-- 
2.43.0


From 28606ebe71bb3d787bb75ed6b51ddecec9047138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:32 +0000
Subject: [PATCH 27/80] fix: Array3D's NoData value was uninitialised and not
 part of equality

---
 include/richdem/common/Array3D.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/richdem/common/Array3D.hpp b/include/richdem/common/Array3D.hpp
index 4fbe0df..2fc24e6 100644
--- a/include/richdem/common/Array3D.hpp
+++ b/include/richdem/common/Array3D.hpp
@@ -77,7 +77,7 @@ class Array3D {
   ManagedVector<T> data;            ///< Holds the raster data in a 1D array
                                     ///< this improves caching versus a 2D array
 
-  T   no_data;                       ///< NoData value of the raster
+  T   no_data = -1;                  ///< NoData value of the raster
   mutable i_t num_data_cells = NO_I; ///< Number of cells which are not NoData
 
   xy_t view_width  = 0;              ///< Height of raster in cells
@@ -212,7 +212,9 @@ class Array3D {
   bool operator==(const Array3D<T> &o) const {
     if(width()!=o.width() || height()!=o.height())
       return false;
-    for(unsigned int i=0;i<o.data.size();i++)
+    if(noData()!=o.noData())
+      return false;
+    for(i_t i=0;i<o.data.size();i++)
       if(data[i]!=o.data[i])
         return false;
     return true;
-- 
2.43.0


From 818a090b188042517e7adf5b20e3e82553c2fbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:32 +0000
Subject: [PATCH 28/80] fix: the metadata of a GDAL file was never loaded

---
 include/richdem/common/Array2D.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 8916384..0a41d19 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -45,7 +45,7 @@ inline std::map<std::string, std::string> ProcessMetadata(char **metadata){
   if(metadata==NULL)
     return ret;
 
-  for(int metstri=0;metadata[metstri]==NULL;metstri++){
+  for(int metstri=0;metadata[metstri]!=NULL;metstri++){
     std::string metstr = metadata[metstri];
     const auto equals  = metstr.find("=");
     if(equals==std::string::npos){
-- 
2.43.0


From 6629904b2565fa72c2a7749459a83082a2be7852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:32 +0000
Subject: [PATCH 29/80] fix: saving a raster without a description left its
 processing history entry blank

---
 include/richdem/common/Array2D.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 0a41d19..0641f0c 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -1141,7 +1141,7 @@ class Array2D {
 
       //TODO: `metadata_str` may need removing
       metadata["PROCESSING_HISTORY"] += "\n" + std::string(time_str) + " | " + program_identifier + " | ";
-      if(!metadata.empty())
+      if(!metadata_str.empty())
         metadata["PROCESSING_HISTORY"] += metadata_str;
       else
         metadata["PROCESSING_HISTORY"] += "Unspecified Operation";
-- 
2.43.0


From 9286a57c1d531eaf8ef958945ebeb9a4456382c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:32 +0000
Subject: [PATCH 30/80] fix: a raster made from an initializer list could not
 be saved because GDAL was not initialised

---
 include/richdem/common/Array2D.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 0641f0c..9a613be 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -307,7 +307,7 @@ class Array2D {
     @example
       Array2D<int> x = {{1,2,3},{4,5,6}}
   */
-  Array2D(std::initializer_list<std::initializer_list<T>> values) {
+  Array2D(std::initializer_list<std::initializer_list<T>> values) : Array2D() {
     const size_t height = values.size();
     const size_t width = values.begin()->size();
     for(const auto &x: values){
-- 
2.43.0


From 46c693ee5ce83d72e11ad42cbe76c660649d64e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:53 +0000
Subject: [PATCH 31/80] fix: radix_heap::min returned the key of an item popped
 earlier

---
 include/richdem/common/radix_heap.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/richdem/common/radix_heap.hpp b/include/richdem/common/radix_heap.hpp
index dad7b9c..8eacad8 100644
--- a/include/richdem/common/radix_heap.hpp
+++ b/include/richdem/common/radix_heap.hpp
@@ -233,6 +233,7 @@ class radix_heap {
   void pull() {
     assert(size_ > 0);
     if (!buckets_[0].empty()) return;
+    buckets_min_[0] = std::numeric_limits<unsigned_key_type>::max();
 
     const size_t i = bucket_flags_.find_first_non_empty();
     last_ = buckets_min_[i];
-- 
2.43.0


From d5f229380bf26f1096697b32d237c16254ee87be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:53 +0000
Subject: [PATCH 32/80] fix: the LRU cache ignored an item equal to its
 uninitialised or evicted last item

---
 include/richdem/tiled/lru.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/richdem/tiled/lru.hpp b/include/richdem/tiled/lru.hpp
index a81faf7..c913038 100644
--- a/include/richdem/tiled/lru.hpp
+++ b/include/richdem/tiled/lru.hpp
@@ -19,7 +19,6 @@ class LRU {
   typedef std::list<T> cachetype; ///< Container used for storage by the cache
   int len;                        ///< Number of items in the cache
   int maxlen;                     ///< Maximum size the cache is allowed to be
-  T   last;                       ///< Copy of the last inserted item. Speeds up insertion. TODO: This'd be better as a pointer
   std::unordered_map<T, typename std::list<T>::iterator> visited; ///< Used for O(1) access to members
 
  public:
@@ -39,9 +38,8 @@ class LRU {
   ///
   ///@param entry The item to add to the queue.
   void insert(const T &entry){
-    //Used to quickly move on if we've seen this item before (TODO: Should use a
-    //pointer in case T is not a POD.)
-    if(entry==last)
+    //Used to quickly move on if we've just seen this item
+    if(!cache.empty() && entry==cache.front())
       return;
 
     if(visited.count(entry)){                     //Item is already in the queue
@@ -52,8 +50,6 @@ class LRU {
       visited[entry] = cache.begin();             //Make a note of its location
       len++;                                      //Queue just got bigger
     }
-
-    last = entry;                                 //Make a note of the new item
   }
 
   ///@brief Returns the number of itmes in the LRU cache
-- 
2.43.0


From fed739ca19e05e589ab33853150f477a1bb1478a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:32 +0000
Subject: [PATCH 33/80] fix: caching a raster without a geotransform read
 unallocated memory

---
 include/richdem/common/Array2D.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 9a613be..b1acb7c 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -232,7 +232,9 @@ class Array2D {
     out.write(reinterpret_cast<const char*>(&num_data_cells), sizeof(i_t));
     out.write(reinterpret_cast<const char*>(&no_data),        sizeof(T  ));
 
-    out.write(reinterpret_cast<const char*>(geotransform.data()), 6*sizeof(double));
+    auto out_geotransform = geotransform;
+    out_geotransform.resize(6); //The raster may not have a geotransform
+    out.write(reinterpret_cast<const char*>(out_geotransform.data()), 6*sizeof(double));
     std::string::size_type projection_size = projection.size();
     out.write(reinterpret_cast<const char*>(&projection_size), sizeof(std::string::size_type));
     out.write(reinterpret_cast<const char*>(projection.data()), projection.size()*sizeof(const char));
-- 
2.43.0


From 1c3fe1af27c2036c87b43009b966bae105499343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:32 +0000
Subject: [PATCH 34/80] fix: a raster that could not be written to its cache
 was dropped from memory without an error

---
 include/richdem/common/Array2D.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index b1acb7c..f35058a 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -240,6 +240,11 @@ class Array2D {
     out.write(reinterpret_cast<const char*>(projection.data()), projection.size()*sizeof(const char));
 
     out.write(reinterpret_cast<const char*>(_data.data()), size()*sizeof(T));
+
+    out.flush();
+    if(!out.good()){
+      throw std::runtime_error("Failed to write cache file '"+filename+"'.");
+    }
   }
 
  private:
-- 
2.43.0


From 16871ae09a6d0d2e0e6d671ef0ec80595a0c8dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:32 +0000
Subject: [PATCH 35/80] fix: loading an incomplete native file gave a raster of
 garbage instead of an error

---
 include/richdem/common/Array2D.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index f35058a..271c756 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -278,12 +278,20 @@ class Array2D {
 
     std::string::size_type projection_size;
     in.read(reinterpret_cast<char*>(&projection_size), sizeof(std::string::size_type));
+    if(!in)
+      throw std::runtime_error("Native file '" + input_filename + "' is incomplete!");
     projection.resize(projection_size,' ');
     in.read(reinterpret_cast<char*>(&projection[0]), projection.size()*sizeof(char));
+    if(!in)
+      throw std::runtime_error("Native file '" + input_filename + "' is incomplete!");
 
     if(load_data){
       resize(view_width,view_height);
       in.read(reinterpret_cast<char*>(_data.data()), size()*sizeof(T));
+      if(!in){
+        clear();
+        throw std::runtime_error("Native file '" + input_filename + "' is incomplete!");
+      }
     }
   }
 
-- 
2.43.0


From 69a406582f458daaaec10667a17a8bebd67036e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:32 +0000
Subject: [PATCH 36/80] fix: saving a padded raster without its padding made a
 file of the padded size

---
 include/richdem/common/loaders.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/common/loaders.hpp b/include/richdem/common/loaders.hpp
index 0eec83f..eb5aaba 100644
--- a/include/richdem/common/loaders.hpp
+++ b/include/richdem/common/loaders.hpp
@@ -106,7 +106,7 @@ void SaveGDAL(const Array2D<T> &arr, const std::string &filename, const std::str
   GDALDriver *poDriver = GetGDALDriverManager()->GetDriverByName("GTiff");
   if(poDriver==NULL)
     throw std::runtime_error("Could not open GDAL driver!");
-  GDALDataset *fout    = poDriver->Create(filename.c_str(), arr.width(), arr.height(), 1, NativeTypeToGDAL<T>(), papszOptions);
+  GDALDataset *fout    = poDriver->Create(filename.c_str(), arr.width()-2*padx, arr.height()-2*pady, 1, NativeTypeToGDAL<T>(), papszOptions);
   if(fout==NULL)
     throw std::runtime_error("Could not open file '"+filename+"' for GDAL save!");
 
-- 
2.43.0


From e7ecd101d35b5035ab57783b594281142b7a69e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:32 +0000
Subject: [PATCH 37/80] fix: a period in a directory's name was taken for the
 beginning of a file's extension

---
 include/richdem/common/Layoutfile.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/richdem/common/Layoutfile.hpp b/include/richdem/common/Layoutfile.hpp
index 7fe032c..7b60db4 100644
--- a/include/richdem/common/Layoutfile.hpp
+++ b/include/richdem/common/Layoutfile.hpp
@@ -55,7 +55,7 @@ static std::string trimStr(std::string const& str){
 static std::string GetBaseName(std::string filename){
   auto last_slash  = filename.find_last_of(RICHDEM_SLASH_CHAR);
   auto last_period = filename.find_last_of(".");
-  if(last_period!=std::string::npos)
+  if(last_period!=std::string::npos && (last_slash==std::string::npos || last_period>last_slash))
     filename.replace(last_period, std::string::npos, "");
   if(last_slash!=std::string::npos)
     filename.replace(0,last_slash+1,"");
@@ -238,7 +238,7 @@ class LayoutfileWriter {
     std::size_t last_period = layout_filename.find_last_of(".");
     if(last_slash!=std::string::npos)
       path = layout_filename.substr(0,last_slash+1);
-    if(last_period!=std::string::npos)
+    if(last_period!=std::string::npos && (last_slash==std::string::npos || last_period>last_slash))
       layout_filename.replace(last_period+1, std::string::npos, "layout");
 
     flout.open(layout_filename);
-- 
2.43.0


From d9eb87ebac81505593d16fa67346ccbe35f28a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:32 +0000
Subject: [PATCH 38/80] fix: an empty or blank layout file crashed the reader

---
 include/richdem/common/Layoutfile.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/richdem/common/Layoutfile.hpp b/include/richdem/common/Layoutfile.hpp
index 7b60db4..98dedc1 100644
--- a/include/richdem/common/Layoutfile.hpp
+++ b/include/richdem/common/Layoutfile.hpp
@@ -132,7 +132,9 @@ class LayoutfileReader {
       throw std::runtime_error("Failed to read the entire layout file!");
 
     //Let's find the longest row
-    auto max_row_length = fgrid.front().size();
+    if(fgrid.empty())
+      throw std::runtime_error("The layout file is empty!");
+    std::size_t max_row_length = 1; //A blank line is a row of one null tile
     for(const auto &row: fgrid)
       max_row_length = std::max(max_row_length,row.size());
 
-- 
2.43.0


From 0a7fb4c43a4cede581786384eae5aa8e8efb6ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:03 +0000
Subject: [PATCH 39/80] fix: saving a raster to a full disk failed without an
 error

---
 include/richdem/common/Array2D.hpp | 5 ++++-
 include/richdem/common/loaders.hpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 271c756..e0e9e95 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -1201,7 +1201,10 @@ class Array2D {
     if(temp!=CE_None)
       throw std::runtime_error("Error writing file with saveGDAL()!");
 
-    GDALClose(fout);
+    CPLErrorReset();
+    GDALClose(fout);  //Cells may only be written to disk now
+    if(CPLGetLastErrorType()>=CE_Failure)
+      throw std::runtime_error("Error writing file '"+input_filename+"': "+CPLGetLastErrorMsg());
   }
   #endif
 
diff --git a/include/richdem/common/loaders.hpp b/include/richdem/common/loaders.hpp
index eb5aaba..3cc8cf5 100644
--- a/include/richdem/common/loaders.hpp
+++ b/include/richdem/common/loaders.hpp
@@ -198,7 +198,10 @@ void SaveGDAL(const Array2D<T> &arr, const std::string &filename, const std::str
   if(temp!=CE_None)
     throw std::runtime_error("Error writing file with saveGDAL()!");
 
-  GDALClose(fout);
+  CPLErrorReset();
+  GDALClose(fout);  //Cells may only be written to disk now
+  if(CPLGetLastErrorType()>=CE_Failure)
+    throw std::runtime_error("Error writing file '"+filename+"': "+CPLGetLastErrorMsg());
 }
 
 #endif
-- 
2.43.0


From 909f66487621ed188124a19e330d811a26ec48a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:05 +0000
Subject: [PATCH 40/80] fix: a tiled raster made from a prefix read an
 unallocated table of null tiles

---
 include/richdem/tiled/A2Array2D.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/richdem/tiled/A2Array2D.hpp b/include/richdem/tiled/A2Array2D.hpp
index 4b4654d..2aca444 100644
--- a/include/richdem/tiled/A2Array2D.hpp
+++ b/include/richdem/tiled/A2Array2D.hpp
@@ -234,6 +234,11 @@ class A2Array2D {
     this->total_width_in_cells  = per_tile_width*width;
     this->total_height_in_cells = per_tile_height*height;
 
+    quick_width_in_tiles  = width;
+    quick_height_in_tiles = height;
+    null_tile_quick.resize(quick_width_in_tiles*quick_height_in_tiles, false);
+    not_null_tiles        = width*height;
+
     int tile=0;
     for(int y=0;y<height;y++){
       data.emplace_back();
@@ -262,6 +267,7 @@ class A2Array2D {
     quick_width_in_tiles  = other.quick_width_in_tiles;
     quick_height_in_tiles = other.quick_height_in_tiles;
     null_tile_quick       = other.null_tile_quick;
+    not_null_tiles        = other.not_null_tiles;
 
     for(int32_t y=0;y<other.heightInTiles();y++){
       data.emplace_back();
-- 
2.43.0


From f5b9ca40777df1c656412c67bc9ff27e1a7fa804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:05 +0000
Subject: [PATCH 41/80] fix: the tiles of a new tiled raster had no size until
 they were first accessed

---
 include/richdem/tiled/A2Array2D.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/richdem/tiled/A2Array2D.hpp b/include/richdem/tiled/A2Array2D.hpp
index 2aca444..15e9424 100644
--- a/include/richdem/tiled/A2Array2D.hpp
+++ b/include/richdem/tiled/A2Array2D.hpp
@@ -412,7 +412,10 @@ class A2Array2D {
     assert(ty>=0);
     assert(tx<(int32_t)data[0].size());
     assert(ty<(int32_t)data.size());
-    return data[ty][tx].width();
+    const auto &tile = data[ty][tx];
+    if(!tile.created && !tile.null_tile) //Tile will be created when it is first accessed
+      return tile.create_with_width!=-1 ? tile.create_with_width : per_tile_width;
+    return tile.width();
   }
 
   int32_t tileHeight(int32_t tx, int32_t ty) const {
@@ -420,7 +423,10 @@ class A2Array2D {
     assert(ty>=0);
     assert(tx<widthInTiles());
     assert(ty<heightInTiles());
-    return data[ty][tx].height();
+    const auto &tile = data[ty][tx];
+    if(!tile.created && !tile.null_tile) //Tile will be created when it is first accessed
+      return tile.create_with_height!=-1 ? tile.create_with_height : per_tile_height;
+    return tile.height();
   }
 
   int32_t stdTileHeight() const {
@@ -464,16 +470,16 @@ class A2Array2D {
     assert(tx<(int32_t)data[0].size());
     assert(ty<(int32_t)data.size());
 
-    assert(px>=0);
-    assert(py>=0);
-    assert(px<data[ty][tx].width() );
-    assert(py<data[ty][tx].height());
-
     if(isNullTile(tx,ty))
       return true;
 
     _LoadTile(tx, ty);
 
+    assert(px>=0);
+    assert(py>=0);
+    assert(px<data[ty][tx].width() );
+    assert(py<data[ty][tx].height());
+
     return data[ty][tx].isNoData(px,py);
   }
 
-- 
2.43.0


From f690c3485aeb805552d9d7c356a6887d3d8928fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:05 +0000
Subject: [PATCH 42/80] fix: saving a tiled raster left its tiles in memory
 flipped

---
 include/richdem/tiled/A2Array2D.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/richdem/tiled/A2Array2D.hpp b/include/richdem/tiled/A2Array2D.hpp
index 15e9424..db42613 100644
--- a/include/richdem/tiled/A2Array2D.hpp
+++ b/include/richdem/tiled/A2Array2D.hpp
@@ -516,9 +516,12 @@ class A2Array2D {
 
         tile.printStamp(5,"Saving, before reorientation");
 
-        if((tile.geotransform[1]<0) ^ flipH)
+        const bool reorient_h = (tile.geotransform[1]<0) ^ flipH;
+        const bool reorient_v = (tile.geotransform[5]>0) ^ flipV;
+
+        if(reorient_h)
           tile.flipHorz();
-        if((tile.geotransform[5]>0) ^ flipV)
+        if(reorient_v)
           tile.flipVert();
 
         tile.printStamp(5,"Saving, after reorientation");
@@ -530,6 +533,12 @@ class A2Array2D {
         lfout.addEntry(temp);
 
         tile.saveGDAL(temp, 0, 0);
+
+        //The tile in memory keeps its orientation
+        if(reorient_h)
+          tile.flipHorz();
+        if(reorient_v)
+          tile.flipVert();
       }
     }
 
-- 
2.43.0


From d719cee6024ec633e6bc7c20399e6ca2ed18f282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:24 +0000
Subject: [PATCH 43/80] fix: saving a tiled raster threw because a null pointer
 was passed as a string

---
 include/richdem/tiled/A2Array2D.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/tiled/A2Array2D.hpp b/include/richdem/tiled/A2Array2D.hpp
index db42613..da1d2c6 100644
--- a/include/richdem/tiled/A2Array2D.hpp
+++ b/include/richdem/tiled/A2Array2D.hpp
@@ -532,7 +532,7 @@ class A2Array2D {
         temp.replace(temp.find("%f"),2,tile.basename);
         lfout.addEntry(temp);
 
-        tile.saveGDAL(temp, 0, 0);
+        tile.saveGDAL(temp);
 
         //The tile in memory keeps its orientation
         if(reorient_h)
-- 
2.43.0


From 9cbb57d5f93ac481ccad4f4874e9c450341b13a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:24 +0000
Subject: [PATCH 44/80] fix: a tiled raster with null tiles could not be saved
 to a single file

---
 include/richdem/tiled/A2Array2D.hpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/richdem/tiled/A2Array2D.hpp b/include/richdem/tiled/A2Array2D.hpp
index da1d2c6..3d2982b 100644
--- a/include/richdem/tiled/A2Array2D.hpp
+++ b/include/richdem/tiled/A2Array2D.hpp
@@ -553,19 +553,39 @@ class A2Array2D {
     if(fout==NULL)
       throw std::runtime_error("Could not open file '"+outputname+"' for GDAL save!");
 
-    auto no_data = data[0][0].noData();
+    //Null tiles have no properties, so use those of the first tile which isn't
+    int32_t first_tx = -1;
+    int32_t first_ty = -1;
+    for(int32_t ty=0;ty<heightInTiles() && first_tx==-1;ty++)
+    for(int32_t tx=0;tx<widthInTiles();tx++)
+      if(!data[ty][tx].null_tile){
+        first_tx = tx;
+        first_ty = ty;
+        break;
+      }
+
+    if(first_tx==-1)
+      throw std::runtime_error("All of the tiles are null tiles!");
+
+    const auto &first_tile = data[first_ty][first_tx];
+
+    auto no_data = first_tile.noData();
     for(int32_t ty=0;ty<heightInTiles();ty++)
     for(int32_t tx=0;tx<widthInTiles();tx++)
-      if(data[ty][tx].noData()!=no_data)
+      if(!data[ty][tx].null_tile && data[ty][tx].noData()!=no_data)
         throw std::runtime_error("Files had differing NoData values :-(");
 
-    auto out_geotransform = data[0][0].geotransform;
+    auto out_geotransform = first_tile.geotransform;
 
     if(out_geotransform.size()!=6)
       throw std::runtime_error("Geotransform of output is not the right size. Found "+std::to_string(out_geotransform.size())+" expected 6.");
 
+    //The output's top-left corner is that of the tile at (0,0)
+    out_geotransform[0] -= first_tx*stdTileWidth() *out_geotransform[1];
+    out_geotransform[3] -= first_ty*stdTileHeight()*out_geotransform[5];
+
     fout->SetGeoTransform(out_geotransform.data());
-    fout->SetProjection(data[0][0].projection.c_str());
+    fout->SetProjection(first_tile.projection.c_str());
 
     GDALRasterBand *oband = fout->GetRasterBand(1);
     oband->SetNoDataValue(no_data);
-- 
2.43.0


From 58848b1250b3d6d8111e590ec797472d35df8c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:30 +0000
Subject: [PATCH 45/80] fix: a tiled raster's tiles forgot a new NoData value
 if they were not in memory when it was set

---
 include/richdem/tiled/A2Array2D.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/richdem/tiled/A2Array2D.hpp b/include/richdem/tiled/A2Array2D.hpp
index 3d2982b..a72a182 100644
--- a/include/richdem/tiled/A2Array2D.hpp
+++ b/include/richdem/tiled/A2Array2D.hpp
@@ -128,7 +128,9 @@ class A2Array2D {
     }
 
     if(tile.created){
+      const T no_data = tile.noData(); //The NoData value may have changed since the tile was cached
       tile.loadData();
+      tile.setNoData(no_data);
       tile.printStamp(5,"Tile load, before reorientating"); //Print stamp before reorientating since this must match parallel_pf.exe
       if(readonly){
         if((tile.geotransform[1]<0) ^ flipH)
-- 
2.43.0


From b273e6dd6cb0f374677e1adb94cce8597eb6c072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:28 +0000
Subject: [PATCH 46/80] fix: parallel priority-flood wrote its label cache over
 its elevation cache

---
 programs/parallel_priority_flood/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/parallel_priority_flood/main.cpp b/programs/parallel_priority_flood/main.cpp
index fe73795..9b7dfcc 100644
--- a/programs/parallel_priority_flood/main.cpp
+++ b/programs/parallel_priority_flood/main.cpp
@@ -244,7 +244,7 @@ class ConsumerSpecifics {
   void SaveToCache(const TileInfo &tile){
     timer_io.start();
     dem.setCacheFilename(tile.retention+"dem.dat");
-    labels.setCacheFilename(tile.retention+"dem.dat");
+    labels.setCacheFilename(tile.retention+"labels.dat");
     dem.dumpData();
     labels.dumpData();
     timer_io.stop();
-- 
2.43.0


From 18a26e90bf7bd699b5b5a5ebfb838ab16b13df19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:28 +0000
Subject: [PATCH 47/80] fix: a message other than the one probed could be
 received

---
 include/richdem/common/communication.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/common/communication.hpp b/include/richdem/common/communication.hpp
index a44aa49..aacc04e 100644
--- a/include/richdem/common/communication.hpp
+++ b/include/richdem/common/communication.hpp
@@ -139,7 +139,7 @@ void CommRecv(T* a, U* b, int from){
   char* buf = (char*)malloc(msg_size);
   assert(buf!=NULL);
 
-  MPI_Recv(buf, msg_size, MPI_BYTE, from, MPI_ANY_TAG, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
+  MPI_Recv(buf, msg_size, MPI_BYTE, status.MPI_SOURCE, status.MPI_TAG, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
 
   bytes_recv += msg_size;
 
-- 
2.43.0


From 996c54693e4dc0e5c628ba253dcb159f53479b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:55 +0000
Subject: [PATCH 48/80] fix: the message ending a consumer of the parallel
 programs was never received

---
 programs/parallel_d8_accum/main.cpp       | 4 +++-
 programs/parallel_priority_flood/main.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/programs/parallel_d8_accum/main.cpp b/programs/parallel_d8_accum/main.cpp
index a3840c6..158350d 100644
--- a/programs/parallel_d8_accum/main.cpp
+++ b/programs/parallel_d8_accum/main.cpp
@@ -937,6 +937,8 @@ void Consumer(){
     //This message indicates that everything is done and the Consumer should shut
     //down.
     if(the_job==SYNC_MSG_KILL){
+      int temp;
+      CommRecv(&temp, nullptr, 0); //The Producer may be waiting for this message to be received
       return;
 
     //This message indicates that the consumer should prepare to perform the
@@ -1107,7 +1109,7 @@ void Producer(TileGrid &tiles){
   //Send out a message to tell the consumers to politely quit. Their job is
   //done.
   for(int i=1;i<CommSize();i++){
-    int temp;
+    int temp = 0;
     CommSend(&temp,nullptr,i,SYNC_MSG_KILL);
   }
 
diff --git a/programs/parallel_priority_flood/main.cpp b/programs/parallel_priority_flood/main.cpp
index 9b7dfcc..2d3b415 100644
--- a/programs/parallel_priority_flood/main.cpp
+++ b/programs/parallel_priority_flood/main.cpp
@@ -615,6 +615,8 @@ void Consumer(){
     //This message indicates that everything is done and the Consumer should shut
     //down.
     if(the_job==SYNC_MSG_KILL){
+      int temp;
+      CommRecv(&temp, nullptr, 0); //The Producer may be waiting for this message to be received
       return;
 
     //This message indicates that the consumer should prepare to perform the
@@ -792,7 +794,7 @@ void Producer(TileGrid &tiles){
   //Send out a message to tell the consumers to politely quit. Their job is
   //done.
   for(int i=1;i<CommSize();i++){
-    int temp;
+    int temp = 0;
     CommSend(&temp,nullptr,i,SYNC_MSG_KILL);
   }
 
-- 
2.43.0


From 9c6a1099815f837b1a6517c687f2c15a0226c9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:08 +0000
Subject: [PATCH 49/80] fix: parallel programs read a representative tile that
 had been moved

---
 programs/parallel_d8_accum/main.cpp       | 11 +++++++----
 programs/parallel_priority_flood/main.cpp | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/programs/parallel_d8_accum/main.cpp b/programs/parallel_d8_accum/main.cpp
index 158350d..9fe65c3 100644
--- a/programs/parallel_d8_accum/main.cpp
+++ b/programs/parallel_d8_accum/main.cpp
@@ -1252,10 +1252,6 @@ void Preparer(
         analysis
       );
 
-      //Get a representative tile, if we don't already have one
-      if(reptile==nullptr)
-        reptile = &tiles.back().back();
-
       lfout.addEntry(this_output_name);
 
       //Flip tiles if the geotransform demands it
@@ -1275,6 +1271,13 @@ void Preparer(
     std::cerr<<"m Total cells to be processed = "<<cell_count<<std::endl;
     std::cerr<<"m Number of tiles which were not null = "<<not_null_tiles<<std::endl;
 
+    //Get a representative tile. This waits until all of the tiles are in place
+    //since growing a row of tiles moves those which are already in it.
+    for(auto &row: tiles)
+    for(auto &tile: row)
+      if(reptile==nullptr && !tile.nullTile)
+        reptile = &tile;
+
     //nullTiles imply that the tiles around them have edges, as though they
     //are on the edge of the raster.
     for(int y=0;y<(int)tiles.size();y++)
diff --git a/programs/parallel_priority_flood/main.cpp b/programs/parallel_priority_flood/main.cpp
index 2d3b415..9e48953 100644
--- a/programs/parallel_priority_flood/main.cpp
+++ b/programs/parallel_priority_flood/main.cpp
@@ -937,10 +937,6 @@ void Preparer(
         analysis
       );
 
-      //Get a representative tile, if we don't already have one
-      if(reptile==nullptr)
-        reptile = &tiles.back().back();
-
       lfout.addEntry(this_output_name);
 
       //Flip tiles if the geotransform demands it
@@ -960,6 +956,13 @@ void Preparer(
     std::cerr<<"m Total cells to be processed = "<<cell_count<<std::endl;
     std::cerr<<"m Number of tiles which were not null = "<<not_null_tiles<<std::endl;
 
+    //Get a representative tile. This waits until all of the tiles are in place
+    //since growing a row of tiles moves those which are already in it.
+    for(auto &row: tiles)
+    for(auto &tile: row)
+      if(reptile==nullptr && !tile.nullTile)
+        reptile = &tile;
+
     //nullTiles imply that the tiles around them have edges, as though they
     //are on the edge of the raster.
     for(int y=0;y<(int)tiles.size();y++)
-- 
2.43.0


From 2ce0be84ea6ab3c35c4b6e7e985658da9f02dee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:08 +0000
Subject: [PATCH 50/80] fix: memory usage of more than 2TB threw out_of_range

---
 include/richdem/common/memory.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/richdem/common/memory.hpp b/include/richdem/common/memory.hpp
index 0e415f0..2d53dae 100644
--- a/include/richdem/common/memory.hpp
+++ b/include/richdem/common/memory.hpp
@@ -37,7 +37,7 @@ void ProcessMemUsage(long &vmpeak, long &vmhwm){
       }
 
       if(line.compare(0,7,"VmPeak:")==0){        //Peak virtual memory size
-        vmpeak = std::stoi(line.substr(7));
+        vmpeak = std::stol(line.substr(7));
       // } else if(line.compare(0,7,"VmSize:")==0){ //Virtual memory size
       //   std::cerr<<"T: "<<line.substr(7,10)<<std::endl;
       //   vmsize = std::stoi(line.substr(7,10));
@@ -45,7 +45,7 @@ void ProcessMemUsage(long &vmpeak, long &vmhwm){
       //   std::cerr<<"T: "<<line.substr(7,10)<<std::endl;
       //   vmrss = std::stoi(line.substr(7,10));
       } else if(line.compare(0,6,"VmHWM:")==0){  //Peak resident set size
-        vmhwm = std::stoi(line.substr(6));
+        vmhwm = std::stol(line.substr(6));
       }
     }
   #else
-- 
2.43.0


From 491bb85a8e7a44a7c84d5f7fd8be4115439ab4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:09 +0000
Subject: [PATCH 51/80] fix: parallel programs left the null tiles' information
 uninitialised

---
 programs/parallel_d8_accum/main.cpp       | 4 ++++
 programs/parallel_priority_flood/main.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/programs/parallel_d8_accum/main.cpp b/programs/parallel_d8_accum/main.cpp
index 9fe65c3..48c3fc1 100644
--- a/programs/parallel_d8_accum/main.cpp
+++ b/programs/parallel_d8_accum/main.cpp
@@ -136,6 +136,10 @@ class TileInfo{
   std::string analysis;   //Command line command used to invoke everything
   TileInfo(){
     nullTile = true;
+    edge     = 0;
+    flip     = 0;
+    many     = false;
+    x = y = gridx = gridy = width = height = 0;
   }
   TileInfo(std::string filename, std::string outputname, std::string retention, int32_t gridx, int32_t gridy, int32_t x, int32_t y, int32_t width, int32_t height, bool many, std::string analysis){
     this->nullTile   = false;
diff --git a/programs/parallel_priority_flood/main.cpp b/programs/parallel_priority_flood/main.cpp
index 9e48953..98bc7e3 100644
--- a/programs/parallel_priority_flood/main.cpp
+++ b/programs/parallel_priority_flood/main.cpp
@@ -96,6 +96,10 @@ class TileInfo{
   std::string analysis;   //Command line command used to invoke everything
   TileInfo(){
     nullTile = true;
+    edge     = 0;
+    flip     = 0;
+    many     = false;
+    x = y = gridx = gridy = width = height = 0;
   }
   TileInfo(std::string filename, std::string outputname, std::string retention, int32_t gridx, int32_t gridy, int32_t x, int32_t y, int32_t width, int32_t height, bool many, std::string analysis){
     this->nullTile   = false;
-- 
2.43.0


From eb17d83d48c1cfaa6479558e1d992c560fb949d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:09 +0000
Subject: [PATCH 52/80] fix: tiles beside a null tile in the first rows and
 columns were not marked as edges

---
 programs/parallel_d8_accum/main.cpp       | 8 ++++----
 programs/parallel_priority_flood/main.cpp | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/programs/parallel_d8_accum/main.cpp b/programs/parallel_d8_accum/main.cpp
index 48c3fc1..af6e252 100644
--- a/programs/parallel_d8_accum/main.cpp
+++ b/programs/parallel_d8_accum/main.cpp
@@ -1288,13 +1288,13 @@ void Preparer(
     for(int x=0;x<(int)tiles[0].size();x++){
       if(tiles[y][x].nullTile)
         continue;
-      if(y-1>0 && x>0 && tiles[y-1][x].nullTile)
+      if(y-1>=0 && tiles[y-1][x].nullTile)
         tiles[y][x].edge |= GRID_TOP;
-      if(y+1<(int)tiles.size() && x>0 && tiles[y+1][x].nullTile)
+      if(y+1<(int)tiles.size() && tiles[y+1][x].nullTile)
         tiles[y][x].edge |= GRID_BOTTOM;
-      if(y>0 && x-1>0 && tiles[y][x-1].nullTile)
+      if(x-1>=0 && tiles[y][x-1].nullTile)
         tiles[y][x].edge |= GRID_LEFT;
-      if(y>0 && x+1<(int)tiles[0].size() && tiles[y][x+1].nullTile)
+      if(x+1<(int)tiles[0].size() && tiles[y][x+1].nullTile)
         tiles[y][x].edge |= GRID_RIGHT;
     }
 
diff --git a/programs/parallel_priority_flood/main.cpp b/programs/parallel_priority_flood/main.cpp
index 98bc7e3..d4eb409 100644
--- a/programs/parallel_priority_flood/main.cpp
+++ b/programs/parallel_priority_flood/main.cpp
@@ -973,13 +973,13 @@ void Preparer(
     for(int x=0;x<(int)tiles[0].size();x++){
       if(tiles[y][x].nullTile)
         continue;
-      if(y-1>0 && x>0 && tiles[y-1][x].nullTile)
+      if(y-1>=0 && tiles[y-1][x].nullTile)
         tiles[y][x].edge |= GRID_TOP;
-      if(y+1<(int)tiles.size() && x>0 && tiles[y+1][x].nullTile)
+      if(y+1<(int)tiles.size() && tiles[y+1][x].nullTile)
         tiles[y][x].edge |= GRID_BOTTOM;
-      if(y>0 && x-1>0 && tiles[y][x-1].nullTile)
+      if(x-1>=0 && tiles[y][x-1].nullTile)
         tiles[y][x].edge |= GRID_LEFT;
-      if(y>0 && x+1<(int)tiles[0].size() && tiles[y][x+1].nullTile)
+      if(x+1<(int)tiles[0].size() && tiles[y][x+1].nullTile)
         tiles[y][x].edge |= GRID_RIGHT;
     }
 
-- 
2.43.0


From dbc2650f184ce5701bbf4dbedd073affe16dfa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:45 +0000
Subject: [PATCH 53/80] fix: a corner touching a null tile diagonally was not
 connected to the DEM's outside

---
 programs/parallel_priority_flood/main.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/programs/parallel_priority_flood/main.cpp b/programs/parallel_priority_flood/main.cpp
index d4eb409..ad94449 100644
--- a/programs/parallel_priority_flood/main.cpp
+++ b/programs/parallel_priority_flood/main.cpp
@@ -489,6 +489,17 @@ class ProducerSpecifics {
       //Bottom left
       if(x>0 && y<gridheight-1           && !tiles[y+1][x-1].nullTile)
         HandleCorner(c.bot_elev.front(), jobs1[y+1][x-1].top_elev.back(),  c.bot_label.front(), jobs1[y+1][x-1].top_label.back(),  mastergraph, tiles[y][x].label_offset, tiles[y+1][x-1].label_offset);
+
+      //A null tile imposes an edge on the corner which touches it, too. Connect
+      //such corners to Special Watershed 1 (which is outside of the DEM).
+      if(y>0 && x>0                      && tiles[y-1][x-1].nullTile)
+        HandleCorner(c.top_elev.front(), c.top_elev.front(), c.top_label.front(), 1, mastergraph, tiles[y][x].label_offset, 0);
+      if(y<gridheight-1 && x<gridwidth-1 && tiles[y+1][x+1].nullTile)
+        HandleCorner(c.bot_elev.back(),  c.bot_elev.back(),  c.bot_label.back(),  1, mastergraph, tiles[y][x].label_offset, 0);
+      if(y>0 && x<gridwidth-1            && tiles[y-1][x+1].nullTile)
+        HandleCorner(c.top_elev.back(),  c.top_elev.back(),  c.top_label.back(),  1, mastergraph, tiles[y][x].label_offset, 0);
+      if(x>0 && y<gridheight-1           && tiles[y+1][x-1].nullTile)
+        HandleCorner(c.bot_elev.front(), c.bot_elev.front(), c.bot_label.front(), 1, mastergraph, tiles[y][x].label_offset, 0);
     }
     timer_mg_construct.stop();
 
-- 
2.43.0


From 904489ec89449bc19ec677f4d61c3a98c9886d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:21 +0000
Subject: [PATCH 54/80] fix: parallel_d8_accum threw on tiles of one row or one
 column

---
 programs/parallel_d8_accum/main.cpp       | 13 ++++++-------
 programs/parallel_d8_accum/perimeters.hpp | 14 ++++++++++----
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/programs/parallel_d8_accum/main.cpp b/programs/parallel_d8_accum/main.cpp
index af6e252..bbcd087 100644
--- a/programs/parallel_d8_accum/main.cpp
+++ b/programs/parallel_d8_accum/main.cpp
@@ -514,9 +514,12 @@ class ConsumerSpecifics {
   }
 
   void FirstRound(const TileInfo &tile, Job1<T> &job1){
-    //-2 removes duplicate cells on vertical edges which would otherwise
-    //overlap horizontal edges
-    links.resize(2*flowdirs.width()+2*(flowdirs.height()-2), FLOW_TERMINATES);
+    //Construct output arrays
+    GridPerimToArray(flowdirs, job1.flowdirs);
+    GridPerimToArray(accum,    job1.accum   );
+
+    //There is one link for each cell of the perimeter
+    links.resize(job1.flowdirs.size(), FLOW_TERMINATES);
 
     //The following considers corner cells more than once. That's okay, though:
     //the repeated effort merely produces the same results in the same places
@@ -549,10 +552,6 @@ class ConsumerSpecifics {
         FollowPath(flowdirs.width()-1,y,tile,flowdirs,links);
 
     job1.links = std::move(links);
-
-    //Construct output arrays
-    GridPerimToArray(flowdirs, job1.flowdirs);
-    GridPerimToArray(accum,    job1.accum   );
     timer_calc.stop();
   }
 
diff --git a/programs/parallel_d8_accum/perimeters.hpp b/programs/parallel_d8_accum/perimeters.hpp
index e5a21ac..855a696 100644
--- a/programs/parallel_d8_accum/perimeters.hpp
+++ b/programs/parallel_d8_accum/perimeters.hpp
@@ -53,9 +53,15 @@ void GridPerimToArray(const richdem::Array2D<U> &grid, std::vector<U> &vec){
   vec2copy = grid.getColData(grid.width()-1);        //Right
   vec.insert(vec.end(),vec2copy.begin()+1,vec2copy.end());
 
-  vec2copy = grid.getRowData(grid.height()-1);       //Bottom
-  vec.insert(vec.end(),vec2copy.begin(),vec2copy.end()-1);
+  //If there is only one row, then the bottom is also the top
+  if(grid.height()>1){
+    vec2copy = grid.getRowData(grid.height()-1);       //Bottom
+    vec.insert(vec.end(),vec2copy.begin(),vec2copy.end()-1);
+  }
 
-  vec2copy = grid.getColData(0);                         //Left
-  vec.insert(vec.end(),vec2copy.begin()+1,vec2copy.end()-1);
+  //If there is only one column, then the left is also the right
+  if(grid.width()>1 && grid.height()>1){
+    vec2copy = grid.getColData(0);                         //Left
+    vec.insert(vec.end(),vec2copy.begin()+1,vec2copy.end()-1);
+  }
 }
\ No newline at end of file
-- 
2.43.0


From fab500cc574b0ca2ca6843999cc7a386a5f5f506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:56 +0000
Subject: [PATCH 55/80] fix: parallel_d8_accum lost flow which passed
 diagonally between two null tiles

---
 programs/parallel_d8_accum/main.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/programs/parallel_d8_accum/main.cpp b/programs/parallel_d8_accum/main.cpp
index bbcd087..08d704d 100644
--- a/programs/parallel_d8_accum/main.cpp
+++ b/programs/parallel_d8_accum/main.cpp
@@ -551,6 +551,13 @@ class ConsumerSpecifics {
       for(int32_t y=0;y<flowdirs.height();y++)
         FollowPath(flowdirs.width()-1,y,tile,flowdirs,links);
 
+    //The corners border the tiles which are diagonal to this one. These may
+    //exist even if the tiles (or the edges of the DEM) beside them do not.
+    FollowPath(0,                 0,                  tile,flowdirs,links);
+    FollowPath(flowdirs.width()-1,0,                  tile,flowdirs,links);
+    FollowPath(0,                 flowdirs.height()-1,tile,flowdirs,links);
+    FollowPath(flowdirs.width()-1,flowdirs.height()-1,tile,flowdirs,links);
+
     job1.links = std::move(links);
     timer_calc.stop();
   }
-- 
2.43.0


From ececea53ba948a526b87a6859daf032d335d885d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:15 +0000
Subject: [PATCH 56/80] fix: Python FlowAccumulation with in_place=False leaves
 the weights as they were

rdarray() takes no `copy` argument: it was swallowed by **kwargs and the
accumulation overwrote the weights of the caller.
---
 wrappers/pyrichdem/richdem/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wrappers/pyrichdem/richdem/__init__.py b/wrappers/pyrichdem/richdem/__init__.py
index fca3ddd..48bf6e1 100644
--- a/wrappers/pyrichdem/richdem/__init__.py
+++ b/wrappers/pyrichdem/richdem/__init__.py
@@ -554,7 +554,7 @@ def FlowAccumulation(dem: rdarray, method: Optional[str] = None, exponent: Optio
     if weights is not None and in_place:
         accum = rdarray(weights, no_data=-1)
     elif weights is not None and not in_place:
-        accum = rdarray(weights, copy=True, meta_obj=dem, no_data=-1)
+        accum = rdarray(np.array(weights), meta_obj=dem, no_data=-1)
     elif weights is None:
         accum = rdarray(
             np.ones(shape=dem.shape, dtype="float64"), meta_obj=dem, no_data=-1
@@ -620,7 +620,7 @@ def FlowAccumFromProps(props: rdarray, weights: Optional[rdarray] = None, in_pla
     if weights is not None and in_place:
         accum = rdarray(weights, no_data=-1)
     elif weights is not None and not in_place:
-        accum = rdarray(weights, copy=True, meta_obj=props, no_data=-1)
+        accum = rdarray(np.array(weights), meta_obj=props, no_data=-1)
     elif weights is None:
         accum = rdarray(
             np.ones(shape=props.shape[0:2], dtype="float64"), meta_obj=props, no_data=-1
-- 
2.43.0


From 7f36adfcc059e503c62bf473d7561d37ff00d203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:15 +0000
Subject: [PATCH 57/80] fix: Python FlowAccumulation with in_place=True returns
 the metadata of the DEM

The view of the weights that was returned had no geotransform, projection or
processing history.
---
 wrappers/pyrichdem/richdem/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wrappers/pyrichdem/richdem/__init__.py b/wrappers/pyrichdem/richdem/__init__.py
index 48bf6e1..17872cb 100644
--- a/wrappers/pyrichdem/richdem/__init__.py
+++ b/wrappers/pyrichdem/richdem/__init__.py
@@ -552,7 +552,7 @@ def FlowAccumulation(dem: rdarray, method: Optional[str] = None, exponent: Optio
     }
 
     if weights is not None and in_place:
-        accum = rdarray(weights, no_data=-1)
+        accum = rdarray(weights, meta_obj=dem, no_data=-1)
     elif weights is not None and not in_place:
         accum = rdarray(np.array(weights), meta_obj=dem, no_data=-1)
     elif weights is None:
@@ -618,7 +618,7 @@ def FlowAccumFromProps(props: rdarray, weights: Optional[rdarray] = None, in_pla
         raise Exception("A richdem.rd3array or numpy.ndarray is required!")
 
     if weights is not None and in_place:
-        accum = rdarray(weights, no_data=-1)
+        accum = rdarray(weights, meta_obj=props, no_data=-1)
     elif weights is not None and not in_place:
         accum = rdarray(np.array(weights), meta_obj=props, no_data=-1)
     elif weights is None:
-- 
2.43.0


From 99c849e4c2d6a9013ca87881543a73dea7fd5bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:15 +0000
Subject: [PATCH 58/80] fix: Python FlowProportions accepts a geotransform held
 as a NumPy array

rd3array.wrap() asked for the truth value of the geotransform, which NumPy
refuses. STANDARD_GEOTRANSFORM, as generate_perlin_terrain() sets it, is such
an array.
---
 wrappers/pyrichdem/richdem/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/pyrichdem/richdem/__init__.py b/wrappers/pyrichdem/richdem/__init__.py
index 17872cb..f04dadf 100644
--- a/wrappers/pyrichdem/richdem/__init__.py
+++ b/wrappers/pyrichdem/richdem/__init__.py
@@ -263,7 +263,7 @@ class rd3array(np.ndarray):
         else:
             rda.setNoData(self.no_data)
 
-        if self.geotransform:
+        if self.geotransform is not None:
             rda.geotransform = np.array(self.geotransform, dtype="float64")
         else:
             print(
-- 
2.43.0


From 9811355b66b7b31c29f3a978582015b50e4a197d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:15 +0000
Subject: [PATCH 59/80] fix: Python rdarray takes its NoData value from
 meta_obj

It was copied from meta_obj and then an exception raised because the argument
no_data was not given as well.
---
 wrappers/pyrichdem/richdem/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wrappers/pyrichdem/richdem/__init__.py b/wrappers/pyrichdem/richdem/__init__.py
index f04dadf..42327e9 100644
--- a/wrappers/pyrichdem/richdem/__init__.py
+++ b/wrappers/pyrichdem/richdem/__init__.py
@@ -169,7 +169,7 @@ class rdarray(np.ndarray):
         if no_data is not None:
             obj.no_data = no_data
 
-        if no_data is None:
+        if obj.no_data is None:
             raise Exception("A no_data value must be specified!")
 
         return obj
@@ -236,7 +236,7 @@ class rd3array(np.ndarray):
         if no_data is not None:
             obj.no_data = no_data
 
-        if no_data is None:
+        if obj.no_data is None:
             raise Exception("A no_data value must be specified!")
 
         return obj
-- 
2.43.0


From bab118c22f73a018ac96391162925ddb639c209e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:15 +0000
Subject: [PATCH 60/80] fix: Python functions work on arrays which are not
 C-contiguous

RichDEM was handed the memory of a temporary copy of such an array: the copy was
freed before use and what was computed in place never reached the caller.
---
 wrappers/pyrichdem/richdem/__init__.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/wrappers/pyrichdem/richdem/__init__.py b/wrappers/pyrichdem/richdem/__init__.py
index 42327e9..9fef230 100644
--- a/wrappers/pyrichdem/richdem/__init__.py
+++ b/wrappers/pyrichdem/richdem/__init__.py
@@ -199,7 +199,11 @@ class rdarray(np.ndarray):
         if dtype not in richdem_arrs:
             raise Exception(f"No equivalent RichDEM datatype to '{dtype}'.")
 
-        rda = richdem_arrs[dtype](self)
+        # RichDEM works on row-major memory. An array laid out otherwise is worked on
+        # in a copy, which copyFromWrapped() brings back.
+        buffer = np.ascontiguousarray(self)
+        rda = richdem_arrs[dtype](buffer)
+        rda.buffer = buffer
 
         if self.no_data is None:
             print("Warning! no_data was None. Setting it to -9999!")
@@ -217,7 +221,12 @@ class rdarray(np.ndarray):
 
         return rda
 
+    def copyDataFromWrapped(self, wrapped):
+        if not np.may_share_memory(self, wrapped.buffer):
+            self[...] = wrapped.buffer
+
     def copyFromWrapped(self, wrapped):
+        self.copyDataFromWrapped(wrapped)
         self.no_data = wrapped.noData()
         # print("IS IT IN",("PROCESSING_HISTORY" in wrapped.metadata))
         # self.metadata += "\n"+wrapped.metadata["PROCESSING_HISTORY"].replace("\n","\t\n")
@@ -255,7 +264,11 @@ class rd3array(np.ndarray):
         if dtype not in richdem_arrs:
             raise Exception("No equivalent RichDEM datatype.")
 
-        rda = richdem_arrs[dtype](self)
+        # RichDEM works on row-major memory. An array laid out otherwise is worked on
+        # in a copy, which copyFromWrapped() brings back.
+        buffer = np.ascontiguousarray(self)
+        rda = richdem_arrs[dtype](buffer)
+        rda.buffer = buffer
 
         if self.no_data is None:
             print("Warning! no_data was None. Setting it to -9999!")
@@ -273,7 +286,12 @@ class rd3array(np.ndarray):
 
         return rda
 
+    def copyDataFromWrapped(self, wrapped):
+        if not np.may_share_memory(self, wrapped.buffer):
+            self[...] = wrapped.buffer
+
     def copyFromWrapped(self, wrapped):
+        self.copyDataFromWrapped(wrapped)
         self.no_data = wrapped.noData()
         # print("IS IT IN",("PROCESSING_HISTORY" in wrapped.metadata))
         # self.metadata += "\n"+wrapped.metadata["PROCESSING_HISTORY"].replace("\n","\t\n")
@@ -841,6 +859,8 @@ def get_depression_hierarchy(dem: rdarray, labels: rdarray) -> Tuple[List[depres
 
     dhret = depression_hierarchy.get_depression_hierarchy(demw, labelsw, flowdirsw)
 
+    labels.copyDataFromWrapped(labelsw)
+
     return dhret, flowdirs
 
 def get_new_depression_hierarchy_labels(shape: Tuple[int, int], no_data: float = -9999, geotransform: Optional[np.ndarray] = None) -> rdarray:
@@ -900,3 +920,5 @@ def fill_spill_merge(dem: rdarray, labels: rdarray, flowdirs: rdarray, deps: Lis
     wtdw = wtd.wrap()
 
     dhret = depression_hierarchy.fill_spill_merge(demw, labelsw, flowdirsw, deps, wtdw)
+
+    wtd.copyDataFromWrapped(wtdw)
-- 
2.43.0


From 94b3a4ecd5d93f672b0b427251d6e196236c5278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:15 +0000
Subject: [PATCH 61/80] fix: Python SaveGDAL keeps the values of the array

Everything was written as Float32, which rounds the integers and doubles RichDEM
produces: flow accumulations above 2^24, for instance.
---
 wrappers/pyrichdem/richdem/__init__.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/wrappers/pyrichdem/richdem/__init__.py b/wrappers/pyrichdem/richdem/__init__.py
index 9fef230..3d37fa9 100644
--- a/wrappers/pyrichdem/richdem/__init__.py
+++ b/wrappers/pyrichdem/richdem/__init__.py
@@ -383,7 +383,17 @@ def SaveGDAL(filename: str, rda: rdarray) -> None:
         raise Exception("richdem.SaveGDAL() requires GDAL.")
 
     driver = gdal.GetDriverByName("GTiff")
-    data_type = gdal.GDT_Float32  # TODO
+    data_types = {
+        "uint8": gdal.GDT_Byte,
+        "int16": gdal.GDT_Int16,
+        "int32": gdal.GDT_Int32,
+        "uint16": gdal.GDT_UInt16,
+        "uint32": gdal.GDT_UInt32,
+        "int64": gdal.GDT_Float64,
+        "uint64": gdal.GDT_Float64,
+        "float64": gdal.GDT_Float64,
+    }
+    data_type = data_types.get(str(rda.dtype), gdal.GDT_Float32)
     data_set = driver.Create(
         filename, xsize=rda.shape[1], ysize=rda.shape[0], bands=1, eType=data_type
     )
-- 
2.43.0


From 523145b661e4438edc382fc43fa3e0a1064ead55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:15 +0000
Subject: [PATCH 62/80] fix: Python SaveGDAL saves an array without a
 geotransform

GDAL refuses None as a geotransform.
---
 wrappers/pyrichdem/richdem/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wrappers/pyrichdem/richdem/__init__.py b/wrappers/pyrichdem/richdem/__init__.py
index 3d37fa9..57bbe76 100644
--- a/wrappers/pyrichdem/richdem/__init__.py
+++ b/wrappers/pyrichdem/richdem/__init__.py
@@ -397,7 +397,8 @@ def SaveGDAL(filename: str, rda: rdarray) -> None:
     data_set = driver.Create(
         filename, xsize=rda.shape[1], ysize=rda.shape[0], bands=1, eType=data_type
     )
-    data_set.SetGeoTransform(rda.geotransform)
+    if rda.geotransform is not None:
+        data_set.SetGeoTransform([float(x) for x in rda.geotransform])
     data_set.SetProjection(rda.projection)
     band = data_set.GetRasterBand(1)
     band.SetNoDataValue(rda.no_data)
-- 
2.43.0


From 81af21ea4ad15d463e1d82c914563d5cad124145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:15 +0000
Subject: [PATCH 63/80] fix: rd_breach_depressions (Python) saves the breached
 DEM

The result of BreachDepressions() was dropped and the DEM saved as it was
loaded.
---
 wrappers/pyrichdem/richdem/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/pyrichdem/richdem/cli.py b/wrappers/pyrichdem/richdem/cli.py
index ab5fd38..b96acad 100644
--- a/wrappers/pyrichdem/richdem/cli.py
+++ b/wrappers/pyrichdem/richdem/cli.py
@@ -46,7 +46,7 @@ def BreachDepressions() -> None:
 
     dem = rd.LoadGDAL(args.dem)
     rd._AddAnalysis(dem, " ".join(sys.argv))
-    rd.BreachDepressions(dem)
+    rd.BreachDepressions(dem, in_place=True)
     rd.SaveGDAL(args.outname, dem)
 
 
-- 
2.43.0


From e135d9e4fe74f09430426f11a5d2ff2096d3dc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:15 +0000
Subject: [PATCH 64/80] fix: Python setNoData does not narrow the NoData value
 to a float

pybind11 takes the first overload that accepts a Python float, and that was the
one for float: NoData values such as -1.7976931348623157e308, 2147483647 or
-9999.9 were no longer the value which the cells hold.
---
 wrappers/pyrichdem/src/pywrapper.cpp | 2 +-
 wrappers/pyrichdem/src/pywrapper.hpp | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/wrappers/pyrichdem/src/pywrapper.cpp b/wrappers/pyrichdem/src/pywrapper.cpp
index 07793b7..b6a1115 100644
--- a/wrappers/pyrichdem/src/pywrapper.cpp
+++ b/wrappers/pyrichdem/src/pywrapper.cpp
@@ -90,8 +90,8 @@ PYBIND11_MODULE(_richdem, m) {
       .def("noData",    &Array3D<float>::noData)
 
       //TODO: Simplify by casting to double in Python
-      .def("setNoData", [](Array3D<float> &a, const float    ndval){ a.setNoData((float)ndval); })
       .def("setNoData", [](Array3D<float> &a, const double   ndval){ a.setNoData((float)ndval); })
+      .def("setNoData", [](Array3D<float> &a, const float    ndval){ a.setNoData((float)ndval); })
       .def("setNoData", [](Array3D<float> &a, const int8_t   ndval){ a.setNoData((float)ndval); })
       .def("setNoData", [](Array3D<float> &a, const int16_t  ndval){ a.setNoData((float)ndval); })
       .def("setNoData", [](Array3D<float> &a, const int32_t  ndval){ a.setNoData((float)ndval); })
diff --git a/wrappers/pyrichdem/src/pywrapper.hpp b/wrappers/pyrichdem/src/pywrapper.hpp
index c6419ef..9404ad2 100644
--- a/wrappers/pyrichdem/src/pywrapper.hpp
+++ b/wrappers/pyrichdem/src/pywrapper.hpp
@@ -131,8 +131,9 @@ void TemplatedArrayWrapper(pybind11::module &m, std::string tname){
       .def("max",       &Array2D<T>::max)
 
       //TODO: Simplify by casting to double in Python
-      .def("setNoData", [](Array2D<T> &a, const float    ndval){ a.setNoData((T)ndval); })
+      //A Python float must not be narrowed to a C++ float on its way to T
       .def("setNoData", [](Array2D<T> &a, const double   ndval){ a.setNoData((T)ndval); })
+      .def("setNoData", [](Array2D<T> &a, const float    ndval){ a.setNoData((T)ndval); })
       .def("setNoData", [](Array2D<T> &a, const int8_t   ndval){ a.setNoData((T)ndval); })
       .def("setNoData", [](Array2D<T> &a, const int16_t  ndval){ a.setNoData((T)ndval); })
       .def("setNoData", [](Array2D<T> &a, const int32_t  ndval){ a.setNoData((T)ndval); })
-- 
2.43.0


From eb013be2d407d5b2e48ceeb187cd0d3b5392c335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:15 +0000
Subject: [PATCH 65/80] fix: Python fill_spill_merge records the water in the
 depression hierarchy

It is documented to modify `deps`, but only a copy of the list was modified.
---
 wrappers/pyrichdem/src/pywrapper.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/wrappers/pyrichdem/src/pywrapper.cpp b/wrappers/pyrichdem/src/pywrapper.cpp
index b6a1115..8ec4831 100644
--- a/wrappers/pyrichdem/src/pywrapper.cpp
+++ b/wrappers/pyrichdem/src/pywrapper.cpp
@@ -167,7 +167,13 @@ PYBIND11_MODULE(_richdem, m) {
   dephier_module.def("get_depression_hierarchy", &dephier::GetDepressionHierarchy<double, Topology::D8>, "Calculate the hierarchy of depressions. Takes as input a digital elevation model and a set of labels. The labels should have `OCEAN` for cells");
   dephier_module.def(
     "fill_spill_merge",
-    &dephier::FillSpillMerge<double, double>,
+    [](const Array2D<double> &topo, const Array2D<dephier::dh_label_t> &label, const Array2D<flowdir_t> &flowdirs, py::list deps, Array2D<double> &wtd){
+      //A Python list reaches C++ as a copy, so the changes have to be brought back
+      auto cdeps = deps.cast<dephier::DepressionHierarchy<double>>();
+      dephier::FillSpillMerge<double, double>(topo, label, flowdirs, cdeps, wtd);
+      for(size_t i=0;i<cdeps.size();i++)
+        deps[i].cast<dephier::Depression<double>&>() = cdeps[i];
+    },
     "Perform Fill-Spill-Merge on a given landscape and its associated depression hierarchy and water table depths",
     py::arg("topo"),
     py::arg("labels"),
-- 
2.43.0


From d8936fd375f419c23dade67b4924cc8a4ffe9f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:57 +0000
Subject: [PATCH 66/80] fix: Priority-Flood+Epsilon refuses every integer type,
 from Python too

The overloads that refuse integers are bypassed when the template arguments are
given, as the Python wrapper does, and there were none for 8-bit signed and
64-bit integers: such DEMs came back with their depressions partly filled.
---
 include/richdem/depressions/Barnes2014.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/richdem/depressions/Barnes2014.hpp b/include/richdem/depressions/Barnes2014.hpp
index 6b6594a..92c1660 100644
--- a/include/richdem/depressions/Barnes2014.hpp
+++ b/include/richdem/depressions/Barnes2014.hpp
@@ -15,6 +15,8 @@
 #include <limits>
 #include <iostream>
 #include <cstdlib> //Used for exit
+#include <stdexcept>
+#include <type_traits>
 
 namespace richdem {
 
@@ -334,6 +336,10 @@ void PriorityFlood_Barnes2014(Array2D<elev_t> &elevations){
 */
 template <Topology topo, class elev_t>
 void PriorityFloodEpsilon_Barnes2014(Array2D<elev_t> &elevations){
+  //The overloads below are not considered where elev_t is given explicitly
+  if(!std::is_floating_point<elev_t>::value)
+    throw std::runtime_error("Priority-Flood+Epsilon is only available for floating-point data types!");
+
   GridCellZ_pq<elev_t> open;
   std::queue<GridCellZ<elev_t> > pit;
   ProgressBar progress;
-- 
2.43.0


From 560581bc49e8fc56a8d973a87a39f40e1c582a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:08 +0000
Subject: [PATCH 67/80] fix: rd_compare (Python) subtracts rasters of unsigned
 integers without wrapping around

The differences were taken in the type of the rasters, so that 0 and 1 differed by
255, and sums of squares overflowed.
---
 wrappers/pyrichdem/richdem/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/pyrichdem/richdem/cli.py b/wrappers/pyrichdem/richdem/cli.py
index b96acad..31f711d 100644
--- a/wrappers/pyrichdem/richdem/cli.py
+++ b/wrappers/pyrichdem/richdem/cli.py
@@ -221,7 +221,7 @@ rda      -- A dataset
     if np.any(np.isnan(ds2)):
         print("NaN in '{0}'".format(args.rda2))
 
-    diff = np.array(ds1 - ds2)
+    diff = np.array(ds1, dtype="float64") - np.array(ds2, dtype="float64")
 
     print("Absolute Max difference: {0:10.6}".format(np.nanmax(np.abs(diff))))
     print("Absolute Min difference: {0:10.6}".format(np.nanmin(np.abs(diff))))
-- 
2.43.0


From db6d9bff95a1caacad7d78cf2038fa9bf0576767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:06 +0000
Subject: [PATCH 68/80] fix: rd_compare reads no further than the smaller
 raster and compares types by value

---
 apps/rd_compare.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/apps/rd_compare.cpp b/apps/rd_compare.cpp
index 73a6b0a..f49e4f3 100644
--- a/apps/rd_compare.cpp
+++ b/apps/rd_compare.cpp
@@ -10,7 +10,7 @@ int PerformAlgorithm(Array2D<T> a, Array2D<U> b){
   b.loadData();
   if(a.geotransform!=b.geotransform)
     std::cout<<"Geotransforms differ."<<std::endl;
-  if(a.noData()!=b.noData())
+  if((double)a.noData()!=(double)b.noData())
     std::cout<<"NoData values differ."<<std::endl;
   if(a.projection!=b.projection)
     std::cout<<"Projections differ."<<std::endl;
@@ -19,9 +19,12 @@ int PerformAlgorithm(Array2D<T> a, Array2D<U> b){
   if(a.height()!=b.height())
     std::cout<<"Heights differ."<<std::endl;
 
+  if(a.width()!=b.width() || a.height()!=b.height())
+    return 0;
+
   uint64_t differs = 0;
   for(uint64_t i=0;i<a.size();i++)
-    if(a(i)!=b(i))
+    if((double)a(i)!=(double)b(i)) //Every type `router.hpp` loads fits in a double
       differs++;
 
   std::cout<<"Number of values which differ = "<<differs<<std::endl;
-- 
2.43.0


From 07758d4e42700e6dd9649f578d769ff8bc57aaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:06 +0000
Subject: [PATCH 69/80] fix: rd_no_data shows and sets NoData values which are
 not small integers

---
 apps/rd_no_data.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/rd_no_data.cpp b/apps/rd_no_data.cpp
index 56d8f5a..af01ef9 100644
--- a/apps/rd_no_data.cpp
+++ b/apps/rd_no_data.cpp
@@ -8,7 +8,7 @@ using namespace richdem;
 template<class T>
 int PerformAlgorithm(std::string outname, char *nodata, std::string analysis, Array2D<T> inp){
   inp.loadData();
-  inp.setNoData((T)std::stoi(nodata)); //TODO
+  inp.setNoData((T)std::stod(nodata)); //Every type `router.hpp` loads fits in a double
   inp.saveGDAL(outname,analysis);
   return 0;
 }
@@ -28,7 +28,7 @@ int main(int argc, char **argv){
   }
 
   if(argc==2){
-    Array2D<int8_t> temp(argv[1],false,0,0,0,0,false,false); //Data type doesn't matter since we're not loading it
+    Array2D<double> temp(argv[1],false,0,0,0,0,false,false); //We don't load the data, but the NoData value has to fit
     std::cerr<<temp.noData()<<std::endl;
   } else {
     PerformAlgorithm(std::string(argv[1]),argv[2],argv[3],analysis);
-- 
2.43.0


From 02590bf88807f241f0a599a921c4816950f69bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:06 +0000
Subject: [PATCH 70/80] fix: rd_hist shows bytes as numbers and the NoData
 value untruncated

---
 apps/rd_hist.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/rd_hist.cpp b/apps/rd_hist.cpp
index 253f332..93ffb77 100644
--- a/apps/rd_hist.cpp
+++ b/apps/rd_hist.cpp
@@ -14,10 +14,10 @@ int PerformAlgorithm(Array2D<T> rast){
   for(unsigned int i=0;i<rast.size();i++)
     counts[rast(i)]++;
 
-  std::cout<<"Nodata: "<<(int)rast.noData()<<std::endl;
+  std::cout<<"Nodata: "<<+rast.noData()<<std::endl;
 
   for(const auto &x: counts)
-    std::cout<<std::setw(20)<<x.first<<" "<<std::setw(20)<<x.second<<"\n";
+    std::cout<<std::setw(20)<<+x.first<<" "<<std::setw(20)<<x.second<<"\n";
 
   return 0;
 }
-- 
2.43.0


From ec9fd647772f9b4b6533d02beacf9ba611b7f7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:06 +0000
Subject: [PATCH 71/80] fix: rd_expand_dimensions reports failure when it
 refuses to shrink a raster

---
 apps/rd_expand_dimensions.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/apps/rd_expand_dimensions.cpp b/apps/rd_expand_dimensions.cpp
index 4e713a2..1f2459a 100644
--- a/apps/rd_expand_dimensions.cpp
+++ b/apps/rd_expand_dimensions.cpp
@@ -40,7 +40,5 @@ int main(int argc, char **argv){
   int new_width  = std::stoi(argv[3]);
   int new_height = std::stoi(argv[4]);
 
-  PerformAlgorithm(argv[1],argv[2],new_width,new_height,analysis);
-
-  return 0;
+  return PerformAlgorithm(argv[1],argv[2],new_width,new_height,analysis);
 }
\ No newline at end of file
-- 
2.43.0


From 770536b73b531ad051a855261402a04bfee49ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:06 +0000
Subject: [PATCH 72/80] fix: rd_terrain_property does not use a valid attribute
 value as NoData

---
 apps/rd_terrain_property.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/rd_terrain_property.cpp b/apps/rd_terrain_property.cpp
index 6c49cb6..165f6ce 100644
--- a/apps/rd_terrain_property.cpp
+++ b/apps/rd_terrain_property.cpp
@@ -11,6 +11,7 @@ int PerformAlgorithm(std::string output, int algorithm, float z_scale, std::stri
   dem.loadData();
 
   Array2D<float> result(dem);
+  result.setNoData(-9999); //The default, -1, is the aspect of a flat cell
 
   switch(algorithm){
     case 1: 
-- 
2.43.0


From 39a89d6ca7e994fd1da2c56ec180c5edd750e3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:15 +0000
Subject: [PATCH 73/80] fix: rd_depression_hierarchy and rd_fill_spill_merge
 keep the DEM's georeferencing

---
 apps/rd_depression_hierarchy.cpp | 3 ++-
 apps/rd_fill_spill_merge.cpp     | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/apps/rd_depression_hierarchy.cpp b/apps/rd_depression_hierarchy.cpp
index 4e1d17c..60a3e9c 100644
--- a/apps/rd_depression_hierarchy.cpp
+++ b/apps/rd_depression_hierarchy.cpp
@@ -61,7 +61,8 @@ int main(int argc, char **argv){
     }
   }
 
-  label.projection = topo.projection;
+  label.projection   = topo.projection;
+  label.geotransform = topo.geotransform;
   label.saveGDAL(out_name+"-label.tif");
 
   timer_io.stop();
diff --git a/apps/rd_fill_spill_merge.cpp b/apps/rd_fill_spill_merge.cpp
index de67af6..db071ee 100644
--- a/apps/rd_fill_spill_merge.cpp
+++ b/apps/rd_fill_spill_merge.cpp
@@ -58,6 +58,8 @@ int main(int argc, char **argv){
   rd::Array2D<rd::flowdir_t>  flowdirs(topo.width(), topo.height(), rd::NO_FLOW);      //No cells flow anywhere
 
   wtd.setNoData(topo.noData());
+  wtd.projection   = topo.projection;
+  wtd.geotransform = topo.geotransform;
 
   //Label the ocean cells. This is a precondition for using
   //`GetDepressionHierarchy()`.
-- 
2.43.0


From a7c446939b0645ccafe9c53228a7e0afe265d29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:15 +0000
Subject: [PATCH 74/80] fix: rd_flow_accumulation and rd_terrain_property do
 not save a result for algorithms they do not have

---
 apps/rd_flow_accumulation.cpp | 8 +++++---
 apps/rd_terrain_property.cpp  | 2 ++
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/apps/rd_flow_accumulation.cpp b/apps/rd_flow_accumulation.cpp
index c8ee79d..c7e2b52 100644
--- a/apps/rd_flow_accumulation.cpp
+++ b/apps/rd_flow_accumulation.cpp
@@ -26,14 +26,16 @@ int PerformAlgorithm(std::string output, int algorithm, float param, std::string
     case 6: //D∞     - Tarboton (1997)
       FA_Tarboton(dem,accum);                           break;
     case 7: //MD∞    - Seibert & McGlynn (2007)
-      std::cerr<<"This FA is temporarily disabled."; break;
+      std::cerr<<"This FA is temporarily disabled."<<std::endl; return -1;
       //FA_SeibertMcGlynn(dem,accum,param);               break;
     case 8: //D8-LTD - Orlandini et al. (2003)
-      std::cerr<<"This FA is temporarily disabled."; break;
+      std::cerr<<"This FA is temporarily disabled."<<std::endl; return -1;
       //FA_Orlandini(dem,accum,OrlandiniMode::LTD,param); break;
     case 9: //D8-LAD - Orlandini et al. (2003)
-      std::cerr<<"This FA is temporarily disabled."; break;
+      std::cerr<<"This FA is temporarily disabled."<<std::endl; return -1;
       //FA_Orlandini(dem,accum,OrlandiniMode::LAD,param); break;
+    default:
+      std::cerr<<"Unknown algorithm!"<<std::endl; return -1;
   }
 
   accum.scale(accum.getCellArea());
diff --git a/apps/rd_terrain_property.cpp b/apps/rd_terrain_property.cpp
index 165f6ce..df94617 100644
--- a/apps/rd_terrain_property.cpp
+++ b/apps/rd_terrain_property.cpp
@@ -30,6 +30,8 @@ int PerformAlgorithm(std::string output, int algorithm, float z_scale, std::stri
       TA_planform_curvature(dem,result,z_scale); break;
     case 8: 
       TA_profile_curvature (dem,result,z_scale); break;
+    default:
+      std::cerr<<"Unknown algorithm!"<<std::endl; return -1;
   }
 
   result.saveGDAL(output,analysis);
-- 
2.43.0


From c1549520f2d07c632177c9510af00c68be4c55e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:32 +0000
Subject: [PATCH 75/80] fix: the apps report failure when they refuse a
 raster's type or an option

---
 apps/rd_compare.cpp            | 4 +---
 apps/rd_d8_flowdirs.cpp        | 4 +---
 apps/rd_flood_for_flowdirs.cpp | 4 +---
 apps/rd_geotransform.cpp       | 4 +---
 apps/rd_hist.cpp               | 4 +---
 apps/rd_no_data.cpp            | 2 +-
 apps/rd_projection.cpp         | 4 +---
 apps/rd_raster_display.cpp     | 4 +---
 8 files changed, 8 insertions(+), 22 deletions(-)

diff --git a/apps/rd_compare.cpp b/apps/rd_compare.cpp
index f49e4f3..4857646 100644
--- a/apps/rd_compare.cpp
+++ b/apps/rd_compare.cpp
@@ -43,7 +43,5 @@ int main(int argc, char **argv){
     return -1;
   }
 
-  PerformAlgorithm(argv[1],argv[2]);
-
-  return 0;
+  return PerformAlgorithm(argv[1],argv[2]);
 }
\ No newline at end of file
diff --git a/apps/rd_d8_flowdirs.cpp b/apps/rd_d8_flowdirs.cpp
index dcfb251..2fb956e 100644
--- a/apps/rd_d8_flowdirs.cpp
+++ b/apps/rd_d8_flowdirs.cpp
@@ -34,7 +34,5 @@ int main(int argc, char **argv){
     return -1;
   }
 
-  PerformAlgorithm(argv[1],argv[2],analysis);
-
-  return 0;
+  return PerformAlgorithm(argv[1],argv[2],analysis);
 }
\ No newline at end of file
diff --git a/apps/rd_flood_for_flowdirs.cpp b/apps/rd_flood_for_flowdirs.cpp
index e53818e..0beb3d0 100644
--- a/apps/rd_flood_for_flowdirs.cpp
+++ b/apps/rd_flood_for_flowdirs.cpp
@@ -69,7 +69,5 @@ int main(int argc, char **argv){
     return -1;
   }
 
-  PerformAlgorithm(argv[1],argv[2],analysis);
-
-  return 0;
+  return PerformAlgorithm(argv[1],argv[2],analysis);
 }
\ No newline at end of file
diff --git a/apps/rd_geotransform.cpp b/apps/rd_geotransform.cpp
index 3d3a08b..eeab245 100644
--- a/apps/rd_geotransform.cpp
+++ b/apps/rd_geotransform.cpp
@@ -55,7 +55,7 @@ int main(int argc, char **argv){
     return -1;
   }
 
-  PerformAlgorithm(
+  return PerformAlgorithm(
     std::string(argv[1]),
     std::string(argv[2]),
     std::string(argv[3]),
@@ -66,6 +66,4 @@ int main(int argc, char **argv){
     std::string(argv[8]),
     analysis
   );
-
-  return 0;
 }
\ No newline at end of file
diff --git a/apps/rd_hist.cpp b/apps/rd_hist.cpp
index 93ffb77..740c498 100644
--- a/apps/rd_hist.cpp
+++ b/apps/rd_hist.cpp
@@ -34,7 +34,5 @@ int main(int argc, char **argv){
     return -1;
   }
 
-  PerformAlgorithm(std::string(argv[1]));
-
-  return 0;
+  return PerformAlgorithm(std::string(argv[1]));
 }
\ No newline at end of file
diff --git a/apps/rd_no_data.cpp b/apps/rd_no_data.cpp
index af01ef9..dd48a56 100644
--- a/apps/rd_no_data.cpp
+++ b/apps/rd_no_data.cpp
@@ -31,7 +31,7 @@ int main(int argc, char **argv){
     Array2D<double> temp(argv[1],false,0,0,0,0,false,false); //We don't load the data, but the NoData value has to fit
     std::cerr<<temp.noData()<<std::endl;
   } else {
-    PerformAlgorithm(std::string(argv[1]),argv[2],argv[3],analysis);
+    return PerformAlgorithm(std::string(argv[1]),argv[2],argv[3],analysis);
   }
 
   return 0;
diff --git a/apps/rd_projection.cpp b/apps/rd_projection.cpp
index 582130b..a8ce70c 100644
--- a/apps/rd_projection.cpp
+++ b/apps/rd_projection.cpp
@@ -36,7 +36,5 @@ int main(int argc, char **argv){
     return -1;
   }
 
-  PerformAlgorithm(std::string(argv[1]),std::string(argv[2]),std::string(argv[3]),analysis);
-
-  return 0;
+  return PerformAlgorithm(std::string(argv[1]),std::string(argv[2]),std::string(argv[3]),analysis);
 }
diff --git a/apps/rd_raster_display.cpp b/apps/rd_raster_display.cpp
index 993376c..0b702a0 100644
--- a/apps/rd_raster_display.cpp
+++ b/apps/rd_raster_display.cpp
@@ -57,7 +57,5 @@ int main(int argc, char **argv){
     return -1;
   }
 
-  PerformAlgorithm(argv[1],argv[2]);
-
-  return 0;
+  return PerformAlgorithm(argv[1],argv[2]);
 }
-- 
2.43.0


From 6f122d5af18e75bfceb30b1096c5243607e8ae93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:53 +0000
Subject: [PATCH 76/80] fix: FindFlatEdges counts the cells without flow by a
 reduction: threads raced for the counter

---
 include/richdem/flats/Barnes2014.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/flats/Barnes2014.hpp b/include/richdem/flats/Barnes2014.hpp
index 78ffb73..5aa4ee9 100644
--- a/include/richdem/flats/Barnes2014.hpp
+++ b/include/richdem/flats/Barnes2014.hpp
@@ -319,7 +319,7 @@ static void FindFlatEdges(
 
   progress.start( flats.size() );
 
-  #pragma omp parallel for collapse(2)
+  #pragma omp parallel for collapse(2) reduction(+:cells_without_flow)
   for(int y=0;y<flats.height();y++)
   for(int x=0;x<flats.width();x++){
     ++progress;
-- 
2.43.0


From e7bd27ad520248bc40b893586a001f6053926bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:08 +0000
Subject: [PATCH 77/80] fix: raising the cells of flats: threads read
 elevations of neighbours that others were raising

---
 include/richdem/flats/Barnes2014.hpp      | 20 +++++++------
 include/richdem/flats/flat_resolution.hpp | 35 ++++++++++++++---------
 2 files changed, 34 insertions(+), 21 deletions(-)

diff --git a/include/richdem/flats/Barnes2014.hpp b/include/richdem/flats/Barnes2014.hpp
index 5aa4ee9..369b358 100644
--- a/include/richdem/flats/Barnes2014.hpp
+++ b/include/richdem/flats/Barnes2014.hpp
@@ -507,6 +507,10 @@ void ResolveFlatsEpsilon_Barnes2014(
 
   int raise_warn = 0;
 
+  //Neighbours of the focal cell may be being raised by another thread, so what
+  //they were before is looked up here, and they are checked once all are raised
+  const Array2D<U> original = elevations;
+
   #pragma omp parallel for collapse(2)
   for(int y=1;y<flat_mask.height()-1;y++)
   for(int x=1;x<flat_mask.width()-1;x++){
@@ -516,16 +520,16 @@ void ResolveFlatsEpsilon_Barnes2014(
     if(labels(x,y)==0)
       continue;
 
-    //This array holds information about which cells the focal cell was lower
-    //than prior to the focal cell being raised. This is used to check to see if
-    //the focal cell has been raised too high.
-    bool lower[9];
-    for(int n=1;n<=8;++n)
-      lower[n] = elevations(x,y)<elevations(x+d8x[n],y+d8y[n]);
-
     //Raise the focal cell by the appropriate number of increments
     for(int i=0;i<flat_mask(x,y);++i)
       elevations(x,y) = std::nextafter(elevations(x,y),std::numeric_limits<U>::infinity());
+  }
+
+  #pragma omp parallel for collapse(2) reduction(+:raise_warn)
+  for(int y=1;y<flat_mask.height()-1;y++)
+  for(int x=1;x<flat_mask.width()-1;x++){
+    if(labels(x,y)==0)
+      continue;
 
     //Check the surrounding cells to see if we are inappropriately higher than
     //any of them
@@ -541,7 +545,7 @@ void ResolveFlatsEpsilon_Barnes2014(
         continue;
       //I am higher than or of equal elevation to my neighbour, but I was
       //originally lower than my neighbour. This is a problem.
-      if(lower[n])
+      if(original(x,y)<original(nx,ny))
         raise_warn++;
     }
   }
diff --git a/include/richdem/flats/flat_resolution.hpp b/include/richdem/flats/flat_resolution.hpp
index 35dba49..e835349 100644
--- a/include/richdem/flats/flat_resolution.hpp
+++ b/include/richdem/flats/flat_resolution.hpp
@@ -552,6 +552,11 @@ void d8_flats_alter_dem(
 
   RDLOG_ALG_NAME<<"Calculating D8 flow directions using flat mask...";
   progress.start( flat_mask.width()*flat_mask.height() );
+
+  //Neighbours of a cell may be being raised by another thread, so what they were
+  //before is looked up here, and they are checked once all are raised
+  const Array2D<U> original = elevations;
+
   #pragma omp parallel for
   for(int x=1;x<flat_mask.width()-1;x++){
     progress.update( x*flat_mask.height() );
@@ -559,21 +564,25 @@ void d8_flats_alter_dem(
       if(labels(x,y)==0)
         continue;
 
-      bool higher[9];
-      for(int n=1;n<=8;++n)
-        higher[n]=elevations(x,y)>elevations(x+d8x[n],y+d8y[n]);
       for(int i=0;i<flat_mask(x,y);++i)
         elevations(x,y)=std::nextafter(elevations(x,y),std::numeric_limits<U>::infinity());
-      for(int n=1;n<=8;++n){
-        int nx=x+d8x[n];
-        int ny=y+d8y[n];
-        if(labels(nx,ny)==labels(x,y))
-          continue;
-        if(elevations(x,y)<elevations(nx,ny))
-          continue;
-        if(!higher[n])
-          RDLOG_WARN<<"Attempting to raise ("<<x<<","<<y<<") resulted in an invalid alteration of the DEM!";
-      }
+    }
+  }
+
+  for(int x=1;x<flat_mask.width()-1;x++)
+  for(int y=1;y<flat_mask.height()-1;y++){
+    if(labels(x,y)==0)
+      continue;
+
+    for(int n=1;n<=8;++n){
+      int nx=x+d8x[n];
+      int ny=y+d8y[n];
+      if(labels(nx,ny)==labels(x,y))
+        continue;
+      if(elevations(x,y)<elevations(nx,ny))
+        continue;
+      if(!(original(x,y)>original(nx,ny)))
+        RDLOG_WARN<<"Attempting to raise ("<<x<<","<<y<<") resulted in an invalid alteration of the DEM!";
     }
   }
   RDLOG_TIME_USE<<"Succeeded in = "<<progress.stop()<<" s";
-- 
2.43.0


From b180e8828bb5c3f0b0031f78e45947d211428fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:41 +0000
Subject: [PATCH 78/80] fix: D-infinity flat resolution gives due east the
 direction 2*Pi instead of no flow

---
 include/richdem/flats/flat_resolution_dinf.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/richdem/flats/flat_resolution_dinf.hpp b/include/richdem/flats/flat_resolution_dinf.hpp
index b683504..232f5fa 100644
--- a/include/richdem/flats/flat_resolution_dinf.hpp
+++ b/include/richdem/flats/flat_resolution_dinf.hpp
@@ -12,7 +12,7 @@
 
 namespace richdem {
 
-static const float d8_to_dinf[9]={-1, 4*M_PI/4, 3*M_PI/4, 2*M_PI/4, 1*M_PI/4, 0, 7*M_PI/4, 6*M_PI/4, 5*M_PI/4};
+static const float d8_to_dinf[9]={-1, 4*M_PI/4, 3*M_PI/4, 2*M_PI/4, 1*M_PI/4, 8*M_PI/4, 7*M_PI/4, 6*M_PI/4, 5*M_PI/4};
 
 static float dinf_masked_FlowDir(
   const Array2D<int32_t> &flat_resolution_mask,
@@ -58,6 +58,9 @@ static float dinf_masked_FlowDir(
   double rg=NO_FLOW;
   if(nmax!=-1){
     rg=(af[nmax]*rmax+ac[nmax]*M_PI/2);
+    //Due east is 2*Pi, since 0 means that there is no flow
+    if(rg==NO_FLOW)
+      rg=2*M_PI;
   } else {
     for(int n=1;n<=8;n++){  //TODO: I have a feeling this is potentially unsafe as it may create dependency loops. Does it? TODO: Switch this to dinf_dx
       if(groups(x+d8x[n],y+d8y[n])==groups(x,y) && flat_resolution_mask(x+d8x[n],y+d8y[n])<flat_resolution_mask(x,y)){
-- 
2.43.0


From 28857dc37a370626f38008198a9823c03735e25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:41 +0000
Subject: [PATCH 79/80] fix: Perimeter counts cells bordering NoData cells, as
 documented

---
 include/richdem/misc/misc_methods.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/misc/misc_methods.hpp b/include/richdem/misc/misc_methods.hpp
index 66b0728..5366cb4 100644
--- a/include/richdem/misc/misc_methods.hpp
+++ b/include/richdem/misc/misc_methods.hpp
@@ -210,7 +210,7 @@ double Perimeter(
 
       if(perim_type==PerimType::CELL_COUNT){
         for(int n=1;n<=8;n++){
-          if(!arr.inGrid(x+d8x[n],y+d8y[n])){
+          if(!arr.inGrid(x+d8x[n],y+d8y[n]) || arr.isNoData(x+d8x[n],y+d8y[n])){
             cell_edges++;
             break;
           }
-- 
2.43.0


From 3e88cf414ddc01b232bcbd1887fd6cde90d3d21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:41 +0000
Subject: [PATCH 80/80] fix: rd_layout_find_square considers the last row and
 column and layouts without tiles

---
 apps/rd_layout_find_square.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/apps/rd_layout_find_square.py b/apps/rd_layout_find_square.py
index 4941977..7188a56 100755
--- a/apps/rd_layout_find_square.py
+++ b/apps/rd_layout_find_square.py
@@ -5,12 +5,13 @@ import numpy as np
 
 def LargestSquareOfOnes(mat):
   mat     = mat.copy()
-  bestval = -1
+  bestval = 0
   bestloc = None
-  for y in range(data.shape[0]-2,-1,-1):
-    for x in range(data.shape[1]-2,-1,-1):
+  for y in range(mat.shape[0]-1,-1,-1):
+    for x in range(mat.shape[1]-1,-1,-1):
       if mat[y,x]>0:
-        mat[y,x] = min(mat[y+1,x],mat[y,x+1],mat[y+1,x+1])+1
+        if y+1<mat.shape[0] and x+1<mat.shape[1]: #Tiles of the last row and column are squares by themselves
+          mat[y,x] = min(mat[y+1,x],mat[y,x+1],mat[y+1,x+1])+1
         if mat[y,x]>bestval:
           bestval = mat[y,x]
           bestloc = (y,x)
-- 
2.43.0

