From 08bac9b406dc66d7395e43ecfd263b79dfeb8ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:55 +0000
Subject: [PATCH 01/50] fix: count vehicles waiting at the end of a CTM link
 once in the link volume

The volume of the last cell already includes the finished vehicles, so
adding the size of the finished array counted them twice, in the recorded
volumes and in the density behind the link travel time.
---
 src/dlink.cpp      |  2 +-
 src/multiclass.cpp | 23 ++++-------------------
 2 files changed, 5 insertions(+), 20 deletions(-)

diff --git a/src/dlink.cpp b/src/dlink.cpp
index eda34d9..fb8f47f 100644
--- a/src/dlink.cpp
+++ b/src/dlink.cpp
@@ -397,9 +397,9 @@ MNM_Dlink_Ctm::get_link_flow ()
   TInt _total_volume = 0;
   for (int i = 0; i < m_num_cells; ++i)
     {
+      // the volume of the last cell includes the finished vehicles
       _total_volume += m_cell_array[i]->m_volume;
     }
-  _total_volume += m_finished_array.size ();
   return TFlt (_total_volume) / m_flow_scalar;
 }
 
diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 70c4f0d..fd51329 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -874,16 +874,9 @@ MNM_Dlink_Ctm_Multiclass::get_link_flow_car ()
   TInt _total_volume_car = 0;
   for (int i = 0; i < m_num_cells; ++i)
     {
+      // the volume of the last cell includes the finished vehicles
       _total_volume_car += m_cell_array[i]->m_volume_car;
     }
-  std::deque<MNM_Veh *>::iterator _veh_it;
-  for (_veh_it = m_finished_array.begin (); _veh_it != m_finished_array.end ();
-       _veh_it++)
-    {
-      MNM_Veh_Multiclass *_veh = dynamic_cast<MNM_Veh_Multiclass *> (*_veh_it);
-      if (_veh->m_class == 0)
-        _total_volume_car += 1;
-    }
   return TFlt (_total_volume_car) / m_flow_scalar;
 }
 
@@ -893,16 +886,9 @@ MNM_Dlink_Ctm_Multiclass::get_link_flow_truck ()
   TInt _total_volume_truck = 0;
   for (int i = 0; i < m_num_cells; ++i)
     {
+      // the volume of the last cell includes the finished vehicles
       _total_volume_truck += m_cell_array[i]->m_volume_truck;
     }
-  std::deque<MNM_Veh *>::iterator _veh_it;
-  for (_veh_it = m_finished_array.begin (); _veh_it != m_finished_array.end ();
-       _veh_it++)
-    {
-      MNM_Veh_Multiclass *_veh = dynamic_cast<MNM_Veh_Multiclass *> (*_veh_it);
-      if (_veh->m_class == 1)
-        _total_volume_truck += 1;
-    }
   return TFlt (_total_volume_truck) / m_flow_scalar;
 }
 
@@ -995,9 +981,8 @@ MNM_Dlink_Ctm_Multiclass::get_link_flow ()
       _total_volume_car += m_cell_array[i]->m_volume_car;
       _total_volume_truck += m_cell_array[i]->m_volume_truck;
     }
-  return TFlt (_total_volume_car + _total_volume_truck
-               + m_finished_array.size ())
-         / m_flow_scalar;
+  // the volume of the last cell includes the finished vehicles
+  return TFlt (_total_volume_car + _total_volume_truck) / m_flow_scalar;
 }
 
 TFlt
-- 
2.43.0


From 55eab271dea02034aa23e995ebfb130c76e1d05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:34 +0000
Subject: [PATCH 02/50] fix: an origin never sends more vehicles than the link
 can receive

The supply was rounded up at random, and a CTM or LQ link attached to the
origin then refused the incoming vehicles with an exception.
---
 src/dnode.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dnode.cpp b/src/dnode.cpp
index 7e6a0e0..07d1c48 100644
--- a/src/dnode.cpp
+++ b/src/dnode.cpp
@@ -60,8 +60,9 @@ MNM_DMOND::evolve (TInt timestamp)
       if ((_link->get_link_supply () * m_flow_scalar)
           < TFlt (m_out_volume.find (_link)->second))
         {
-          m_out_volume.find (_link)->second = TInt (
-            MNM_Ults::round (_link->get_link_supply () * m_flow_scalar));
+          // never more than the link can receive
+          m_out_volume.find (_link)->second
+            = TInt (_link->get_link_supply () * m_flow_scalar);
         }
     }
   /* move vehicle */
-- 
2.43.0


From 01930193e796e4448a0ef4a538d22458aedc7bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:34 +0000
Subject: [PATCH 03/50] fix: record the empty-network travel times before the
 first routing update

With rec_mode_para > 1 the update at timestamp -1 only accumulated, so the
routing at the first step saw all-zero travel times.
---
 src/multiclass.cpp | 10 ++++++----
 src/statistics.cpp | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index fd51329..beb68b2 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -6618,9 +6618,11 @@ MNM_Statistics_Lrn_Multiclass::update_record (TInt timestamp)
 {
   MNM_Dlink_Multiclass *_link;
   TFlt _flow, _flow1, _flow2, _tt, _tt1, _tt2;
+  // timestamp -1 is the empty network at the start of the loading, there is
+  // no past interval to average over
   if (m_record_volume)
     {
-      if ((timestamp) % m_n == 0 || timestamp == 0)
+      if ((timestamp) % m_n == 0 || timestamp <= 0)
         {
           for (auto _link_it : m_link_factory->m_link_map)
             {
@@ -6634,7 +6636,7 @@ MNM_Statistics_Lrn_Multiclass::update_record (TInt timestamp)
                 = _flow1;
               m_load_interval_volume_truck.find (_link->m_link_ID)->second
                 = _flow2;
-              if (timestamp == 0)
+              if (timestamp <= 0)
                 {
                   m_record_interval_volume.find (_link->m_link_ID)->second
                     = _flow;
@@ -6687,7 +6689,7 @@ MNM_Statistics_Lrn_Multiclass::update_record (TInt timestamp)
     }
   if (m_record_tt)
     {
-      if ((timestamp) % m_n == 0 || timestamp == 0)
+      if ((timestamp) % m_n == 0 || timestamp <= 0)
         {
           for (auto _link_it : m_link_factory->m_link_map)
             {
@@ -6700,7 +6702,7 @@ MNM_Statistics_Lrn_Multiclass::update_record (TInt timestamp)
               m_load_interval_tt.find (_link->m_link_ID)->second = _tt;
               m_load_interval_tt_car.find (_link->m_link_ID)->second = _tt1;
               m_load_interval_tt_truck.find (_link->m_link_ID)->second = _tt2;
-              if (timestamp == 0)
+              if (timestamp <= 0)
                 {
                   m_record_interval_tt.find (_link->m_link_ID)->second = _tt;
                   m_record_interval_tt_car.find (_link->m_link_ID)->second
diff --git a/src/statistics.cpp b/src/statistics.cpp
index 32bbfab..1154470 100644
--- a/src/statistics.cpp
+++ b/src/statistics.cpp
@@ -319,16 +319,18 @@ MNM_Statistics_Lrn::update_record (TInt timestamp)
 {
   MNM_Dlink *_link;
   TFlt _flow, _tt;
+  // timestamp -1 is the empty network at the start of the loading, there is
+  // no past interval to average over
   if (m_record_volume)
     {
-      if ((timestamp) % m_n == 0 || timestamp == 0)
+      if ((timestamp) % m_n == 0 || timestamp <= 0)
         {
           for (auto _link_it : m_link_factory->m_link_map)
             {
               _link = _link_it.second;
               _flow = _link->get_link_flow ();
               m_load_interval_volume.find (_link->m_link_ID)->second = _flow;
-              if (timestamp == 0)
+              if (timestamp <= 0)
                 {
                   m_record_interval_volume.find (_link->m_link_ID)->second
                     = _flow;
@@ -357,14 +359,14 @@ MNM_Statistics_Lrn::update_record (TInt timestamp)
     }
   if (m_record_tt)
     {
-      if ((timestamp) % m_n == 0 || timestamp == 0)
+      if ((timestamp) % m_n == 0 || timestamp <= 0)
         {
           for (auto _link_it : m_link_factory->m_link_map)
             {
               _link = _link_it.second;
               _tt = _link->get_link_tt (); // seconds
               m_load_interval_tt.find (_link->m_link_ID)->second = _tt;
-              if (timestamp == 0)
+              if (timestamp <= 0)
                 {
                   m_record_interval_tt.find (_link->m_link_ID)->second = _tt;
                 }
-- 
2.43.0


From 4786384ab1673e744d30861a8593a2fd262ed164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:27 +0000
Subject: [PATCH 04/50] fix: copy exactly the demand profile that was read in
 multiclass origins

The copy assumed 15 minutes per assignment interval: any other assign_frq
read past the end of the parsed profile, or dropped its tail.
---
 src/multiclass.cpp | 32 ++++++++++++++++++--------------
 src/multiclass.h   |  6 ++++--
 src/multimodal.cpp |  3 ++-
 3 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index beb68b2..0f7ddc7 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -2965,18 +2965,19 @@ MNM_Origin_Multiclass::generate_label (TInt veh_class)
 
 int
 MNM_Origin_Multiclass::add_dest_demand_multiclass (
-  MNM_Destination_Multiclass *dest, TFlt *demand_car, TFlt *demand_truck)
+  MNM_Destination_Multiclass *dest, TFlt *demand_car, TFlt *demand_truck,
+  TInt num_of_minute)
 {
-  // split (15-mins demand) to (15 * 1-minute demand)
-  double *_demand_car = new double[m_max_assign_interval * 15]();
-  for (int i = 0; i < m_max_assign_interval * 15; ++i)
+  // demand per minute, e.g. 15-mins demand split to (15 * 1-minute demand)
+  double *_demand_car = new double[m_max_assign_interval * num_of_minute]();
+  for (int i = 0; i < m_max_assign_interval * num_of_minute; ++i)
     {
       _demand_car[i] = TFlt (demand_car[i]);
     }
   m_demand_car.insert ({ dest, _demand_car });
 
-  double *_demand_truck = new double[m_max_assign_interval * 15]();
-  for (int i = 0; i < m_max_assign_interval * 15; ++i)
+  double *_demand_truck = new double[m_max_assign_interval * num_of_minute]();
+  for (int i = 0; i < m_max_assign_interval * num_of_minute; ++i)
     {
       _demand_truck[i] = TFlt (demand_truck[i]);
     }
@@ -2987,18 +2988,19 @@ MNM_Origin_Multiclass::add_dest_demand_multiclass (
 
 int
 MNM_Origin_Multiclass::add_dest_adaptive_ratio_multiclass (MNM_Destination_Multiclass *dest,
-                                                           TFlt *ad_ratio_car, TFlt *ad_ratio_truck)
+                                                           TFlt *ad_ratio_car, TFlt *ad_ratio_truck,
+                                                           TInt num_of_minute)
 {
-  // split (15-mins demand) to (15 * 1-minute demand)
-  TFlt *_ratio_car = new double[m_max_assign_interval * 15]();
-  for (int i = 0; i < m_max_assign_interval * 15; ++i)
+  // ratio per minute, e.g. 15-mins ratio repeated for (15 * 1-minute demand)
+  TFlt *_ratio_car = new double[m_max_assign_interval * num_of_minute]();
+  for (int i = 0; i < m_max_assign_interval * num_of_minute; ++i)
     {
       _ratio_car[i] = TFlt (ad_ratio_car[i]);
     }
   m_adaptive_ratio_car.insert ({ dest, _ratio_car });
 
-  TFlt *_ratio_truck = new double[m_max_assign_interval * 15]();
-  for (int i = 0; i < m_max_assign_interval * 15; ++i)
+  TFlt *_ratio_truck = new double[m_max_assign_interval * num_of_minute]();
+  for (int i = 0; i < m_max_assign_interval * num_of_minute; ++i)
     {
       _ratio_truck[i] = TFlt (ad_ratio_truck[i]);
     }
@@ -3882,7 +3884,8 @@ MNM_IO_Multiclass::build_demand_multiclass (const std::string &file_folder,
               _dest = dynamic_cast<MNM_Destination_Multiclass *> (
                 od_factory->get_destination (_D_ID));
               _origin->add_dest_demand_multiclass (_dest, _demand_vector_car,
-                                                   _demand_vector_truck);
+                                                   _demand_vector_truck,
+                                                   _num_of_minute);
             }
           else
             {
@@ -3962,7 +3965,8 @@ MNM_IO_Multiclass::build_td_adaptive_ratio (const std::string &file_folder,
                 od_factory->get_destination (_D_ID));
               _origin->add_dest_adaptive_ratio_multiclass (_dest, 
                                                            _ratio_vector_car,
-                                                           _ratio_vector_truck);
+                                                           _ratio_vector_truck,
+                                                           _num_of_minute);
             }
           else
             {
diff --git a/src/multiclass.h b/src/multiclass.h
index a3e2bce..b83d086 100644
--- a/src/multiclass.h
+++ b/src/multiclass.h
@@ -418,9 +418,11 @@ public:
 
   // use this one instead of add_dest_demand in the base class
   int add_dest_demand_multiclass (MNM_Destination_Multiclass *dest,
-                                  TFlt *demand_car, TFlt *demand_truck);
+                                  TFlt *demand_car, TFlt *demand_truck,
+                                  TInt num_of_minute);
   int add_dest_adaptive_ratio_multiclass (MNM_Destination_Multiclass *dest,
-                                          TFlt *ad_ratio_car, TFlt *ad_ratio_truck);
+                                          TFlt *ad_ratio_car, TFlt *ad_ratio_truck,
+                                          TInt num_of_minute);
   // two new unordered_map for both classes
   std::unordered_map<MNM_Destination_Multiclass *, TFlt *> m_demand_car;
   std::unordered_map<MNM_Destination_Multiclass *, TFlt *> m_demand_truck;
diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 430bb80..00de1f5 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -8617,7 +8617,8 @@ MNM_IO_Multimodal::build_vehicle_demand_multimodal (
               _dest = dynamic_cast<MNM_Destination_Multimodal *> (
                 od_factory->get_destination (_dest_ID));
               _origin->add_dest_demand_multiclass (_dest, _demand_vector_car,
-                                                   _demand_vector_truck);
+                                                   _demand_vector_truck,
+                                                   _num_of_minute);
             }
           else
             {
-- 
2.43.0


From 1f7faba8ab52a6fdb2d49c15febe0102e654b216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:10 +0000
Subject: [PATCH 05/50] fix: the time-dependent adaptive ratio of one OD pair
 does not leak to the next

release_one_interval overwrote its adaptive_ratio argument, so every
destination released after one with an own ratio used that ratio instead
of the configured one.
---
 src/multiclass.cpp | 36 ++++++++++++++++++++----------------
 src/od.cpp         |  9 +++++----
 2 files changed, 25 insertions(+), 20 deletions(-)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 0f7ddc7..fe9021e 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -3067,20 +3067,21 @@ MNM_Origin_Multiclass::release_one_interval (TInt current_interval,
   for (auto _demand_it = m_demand_car.begin ();
        _demand_it != m_demand_car.end (); _demand_it++)
     {
+      TFlt _adaptive_ratio = adaptive_ratio;
       // override adaptive ratio with time-dependent and OD-dependent one in input file
       if (m_adaptive_ratio_car.find(_demand_it->first) != m_adaptive_ratio_car.end()) {
-        adaptive_ratio = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
+        _adaptive_ratio = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio == TFlt (0))
+          if (_adaptive_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multiclass (current_interval,
                                                      MNM_TYPE_STATIC, TInt (0));
             }
-          else if (adaptive_ratio == TFlt (1))
+          else if (_adaptive_ratio == TFlt (1))
             {
               _veh
                 = _vfactory->make_veh_multiclass (current_interval,
@@ -3089,7 +3090,7 @@ MNM_Origin_Multiclass::release_one_interval (TInt current_interval,
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio)
+              if (_r <= _adaptive_ratio)
                 {
                   _veh = _vfactory->make_veh_multiclass (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
@@ -3116,20 +3117,21 @@ MNM_Origin_Multiclass::release_one_interval (TInt current_interval,
   for (auto _demand_it = m_demand_truck.begin ();
        _demand_it != m_demand_truck.end (); _demand_it++)
     {
+      TFlt _adaptive_ratio = adaptive_ratio;
       // override adaptive ratio with time-dependent and OD-dependent one in input file
       if (m_adaptive_ratio_truck.find(_demand_it->first) != m_adaptive_ratio_truck.end()) {
-        adaptive_ratio = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
+        _adaptive_ratio = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio == TFlt (0))
+          if (_adaptive_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multiclass (current_interval,
                                                      MNM_TYPE_STATIC, TInt (1));
             }
-          else if (adaptive_ratio == TFlt (1))
+          else if (_adaptive_ratio == TFlt (1))
             {
               _veh
                 = _vfactory->make_veh_multiclass (current_interval,
@@ -3138,7 +3140,7 @@ MNM_Origin_Multiclass::release_one_interval (TInt current_interval,
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio)
+              if (_r <= _adaptive_ratio)
                 {
                   _veh = _vfactory->make_veh_multiclass (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
@@ -3182,20 +3184,21 @@ MNM_Origin_Multiclass::release_one_interval_biclass (
   for (auto _demand_it = m_demand_car.begin ();
        _demand_it != m_demand_car.end (); _demand_it++)
     {
+      TFlt _adaptive_ratio = adaptive_ratio_car;
       // override adaptive ratio with time-dependent and OD-dependent one in input file
       if (m_adaptive_ratio_car.find(_demand_it->first) != m_adaptive_ratio_car.end()) {
-        adaptive_ratio_car = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
+        _adaptive_ratio = m_adaptive_ratio_car.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio_car == TFlt (0))
+          if (_adaptive_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multiclass (current_interval,
                                                      MNM_TYPE_STATIC, TInt (0));
             }
-          else if (adaptive_ratio_car == TFlt (1))
+          else if (_adaptive_ratio == TFlt (1))
             {
               _veh
                 = _vfactory->make_veh_multiclass (current_interval,
@@ -3204,7 +3207,7 @@ MNM_Origin_Multiclass::release_one_interval_biclass (
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio_car)
+              if (_r <= _adaptive_ratio)
                 {
                   _veh = _vfactory->make_veh_multiclass (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
@@ -3231,20 +3234,21 @@ MNM_Origin_Multiclass::release_one_interval_biclass (
   for (auto _demand_it = m_demand_truck.begin ();
        _demand_it != m_demand_truck.end (); _demand_it++)
     {
+      TFlt _adaptive_ratio = adaptive_ratio_truck;
       // override adaptive ratio with time-dependent and OD-dependent one in input file
       if (m_adaptive_ratio_truck.find(_demand_it->first) != m_adaptive_ratio_truck.end()) {
-        adaptive_ratio_truck = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
+        _adaptive_ratio = m_adaptive_ratio_truck.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio_truck == TFlt (0))
+          if (_adaptive_ratio == TFlt (0))
             {
               _veh = _vfactory->make_veh_multiclass (current_interval,
                                                      MNM_TYPE_STATIC, TInt (1));
             }
-          else if (adaptive_ratio_truck == TFlt (1))
+          else if (_adaptive_ratio == TFlt (1))
             {
               _veh
                 = _vfactory->make_veh_multiclass (current_interval,
@@ -3253,7 +3257,7 @@ MNM_Origin_Multiclass::release_one_interval_biclass (
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio_truck)
+              if (_r <= _adaptive_ratio)
                 {
                   _veh = _vfactory->make_veh_multiclass (current_interval,
                                                          MNM_TYPE_ADAPTIVE,
diff --git a/src/od.cpp b/src/od.cpp
index 9490b0e..fabcbed 100644
--- a/src/od.cpp
+++ b/src/od.cpp
@@ -136,19 +136,20 @@ MNM_Origin::release_one_interval (TInt current_interval,
   for (auto _demand_it = m_demand.begin (); _demand_it != m_demand.end ();
        _demand_it++)
     {
+      TFlt _adaptive_ratio = adaptive_ratio;
       // override adaptive ratio with time-dependent and OD-dependent one in input file
       if (m_adaptive_ratio.find(_demand_it->first) != m_adaptive_ratio.end()) {
-        adaptive_ratio = m_adaptive_ratio.find(_demand_it->first) -> second[assign_interval];
+        _adaptive_ratio = m_adaptive_ratio.find(_demand_it->first) -> second[assign_interval];
       }
       _veh_to_release = TInt (MNM_Ults::round (
         (_demand_it->second)[assign_interval] * m_flow_scalar));
       for (int i = 0; i < _veh_to_release; ++i)
         {
-          if (adaptive_ratio == TFlt (0))
+          if (_adaptive_ratio == TFlt (0))
             {
               _veh = veh_factory->make_veh (current_interval, MNM_TYPE_STATIC);
             }
-          else if (adaptive_ratio == TFlt (1))
+          else if (_adaptive_ratio == TFlt (1))
             {
               _veh
                 = veh_factory->make_veh (current_interval, MNM_TYPE_ADAPTIVE);
@@ -156,7 +157,7 @@ MNM_Origin::release_one_interval (TInt current_interval,
           else
             {
               TFlt _r = MNM_Ults::rand_flt ();
-              if (_r <= adaptive_ratio)
+              if (_r <= _adaptive_ratio)
                 {
                   _veh = veh_factory->make_veh (current_interval,
                                                 MNM_TYPE_ADAPTIVE);
-- 
2.43.0


From 63edc49670e7715f824db319990bd6b0915a2672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:13 +0000
Subject: [PATCH 06/50] fix: Dijkstra forgets links of an earlier tree for
 unreachable nodes

---
 src/shortest_path.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/shortest_path.cpp b/src/shortest_path.cpp
index 80979b2..f9d9d53 100644
--- a/src/shortest_path.cpp
+++ b/src/shortest_path.cpp
@@ -41,9 +41,8 @@ MNM_Shortest_Path::all_to_one_Dijkstra (
         {
           dist_to_dest.insert (
             { _node_id, TFlt (std::numeric_limits<double>::infinity ()) });
-          output_map.insert (
-            { _node_id, -1 }); // If the destination is not accessible the
-                               // output remains -1
+          output_map[_node_id] = -1; // If the destination is not accessible
+                                     // the output remains -1
         }
     }
   dist_to_dest[dest_node_ID] = TFlt (0);
-- 
2.43.0


From 418923d5e2cf027143f7bcb5435ec5c1a56595da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:13 +0000
Subject: [PATCH 07/50] fix: the LIFO shortest path relaxes only the links
 entering the scanned node

---
 src/shortest_path.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/shortest_path.cpp b/src/shortest_path.cpp
index f9d9d53..2748bd8 100644
--- a/src/shortest_path.cpp
+++ b/src/shortest_path.cpp
@@ -493,8 +493,9 @@ MNM_Shortest_Path::all_to_one_LIFO (
       _tmp_ID = m_Q.front ();
       m_Q.pop_front ();
       m_Q_support.find (_tmp_ID)->second = false;
+      const auto &node = graph.get_node (_tmp_ID);
       _tmp_dist = _dist.find (_tmp_ID)->second;
-      for (const auto &link : graph.links ())
+      for (const auto &link : graph.connections (node, Direction::Incoming))
         {
           _in_node_ID = graph.get_id (graph.get_endpoints (link).first);
           _in_link_ID = graph.get_id (link);
-- 
2.43.0


From 2e4942246db12fe7ddc7ee152b2d028700dd5ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:13 +0000
Subject: [PATCH 08/50] fix: iterate over all neighbors of a node, not only the
 first one

---
 src/graph.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/graph.h b/src/graph.h
index eb71e2f..8bbfac2 100644
--- a/src/graph.h
+++ b/src/graph.h
@@ -250,6 +250,11 @@ public:
         // Invariant: before stepping to the next neighbor, the current one
         // should have never been seen.
         assert (!(cur && seen.count (cur->endpoints[direction])));
+        if (cur)
+          {
+            seen.insert (cur->endpoints[direction]);
+            cur = cur->next[direction];
+          }
         while (cur || refill)
           {
             if (!cur)
@@ -260,10 +265,6 @@ public:
                   = invert (this->direction);
                 direction = static_cast<int> (this->direction);
               }
-            else
-              {
-                seen.insert (cur->endpoints[direction]);
-              }
 
             if (!seen.count (cur->endpoints[direction]))
               break;
-- 
2.43.0


From 1f3d33b3e20255fae85792bd1101fd76e7c15989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:13 +0000
Subject: [PATCH 09/50] fix: skip blank and comment lines of the path table
 buffer itself

---
 src/io.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index f716ab7..8c0d8a5 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -869,9 +869,14 @@ MNM_IO::load_path_table (const std::string &file_name,
             {
               while (1)
                 {
-                  std::getline (_buffer_file, _buffer_line);
+                  if (!std::getline (_buffer_file, _buffer_line))
+                    {
+                      throw std::runtime_error (
+                        "failed to read path table buffer file: "
+                        + _buffer_file_name);
+                    }
                   _buffer_line = trim (_buffer_line);
-                  if (!_line.empty () && _line[0] != '#')
+                  if (!_buffer_line.empty () && _buffer_line[0] != '#')
                     {
                       break;
                     }
-- 
2.43.0


From ede2c799fa9cfa4df86424ec8fd22b9d61988bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:32 +0000
Subject: [PATCH 10/50] fix: cumulative curves tell time stamps beyond ten
 thousand steps apart

---
 src/dlink.cpp             | 18 +++++++++++-------
 src/dlink.h               |  4 ++++
 src/dta_gradient_utls.cpp | 11 +++++++----
 3 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/dlink.cpp b/src/dlink.cpp
index fb8f47f..78bb08c 100644
--- a/src/dlink.cpp
+++ b/src/dlink.cpp
@@ -1028,12 +1028,12 @@ MNM_Cumulative_Curve::add_increment (std::pair<TFlt, TFlt> r)
   // std::pair <TFlt, TFlt> _best = *std::max_element(m_recorder.begin(),
   // m_recorder.end(), pair_compare);
   std::pair<TFlt, TFlt> _best = m_recorder[m_recorder.size () - 1];
-  if (MNM_Ults::approximate_less_than (r.first, _best.first))
+  if (MNM_Ults::approximate_less_than (r.first, _best.first, m_tolerance))
     {
       throw std::runtime_error (
         "Error, MNM_Cumulative_Curve::add_increment, early time index");
     }
-  if (MNM_Ults::approximate_equal (r.first, _best.first))
+  if (MNM_Ults::approximate_equal (r.first, _best.first, m_tolerance))
     {
       // printf("Incrementing\n");
       m_recorder[m_recorder.size () - 1].second += r.second;
@@ -1101,13 +1101,14 @@ MNM_Cumulative_Curve::get_result (TFlt time)
   auto _lower_j
     = std::lower_bound (m_recorder.begin (), m_recorder.end (), time,
                         [] (const std::pair<TFlt, TFlt> &r, TFlt v) {
-                          return MNM_Ults::approximate_less_than (r.first, v);
+                          return MNM_Ults::approximate_less_than (r.first, v,
+                                                                  m_tolerance);
                         });
   j = std::distance (m_recorder.begin (), _lower_j);
   IAssert (j >= 1);
   if (_lower_j != m_recorder.end ())
     {
-      if (MNM_Ults::approximate_equal (m_recorder[j].first, time))
+      if (MNM_Ults::approximate_equal (m_recorder[j].first, time, m_tolerance))
         {
           // printf("index j-1 %d, time %f, flow %f\n", j-1,
           // m_recorder[j-1].first(), m_recorder[j-1].second()); printf("index j
@@ -1228,7 +1229,8 @@ MNM_Cumulative_Curve::get_time (TFlt result, bool rounding_up)
   auto _lower_j
     = std::lower_bound (m_recorder.begin (), m_recorder.end (), result,
                         [] (const std::pair<TFlt, TFlt> &r, TFlt v) {
-                          return MNM_Ults::approximate_less_than (r.second, v);
+                          return MNM_Ults::approximate_less_than (r.second, v,
+                                                                  m_tolerance);
                         });
   j = std::distance (m_recorder.begin (), _lower_j);
   IAssert (j >= 1);
@@ -1238,7 +1240,8 @@ MNM_Cumulative_Curve::get_time (TFlt result, bool rounding_up)
     }
   if (_lower_j != m_recorder.end ())
     {
-      if (MNM_Ults::approximate_equal (m_recorder[j].second, result))
+      if (MNM_Ults::approximate_equal (m_recorder[j].second, result,
+                                       m_tolerance))
         {
           // printf("index j-1 %d, time %f, flow %f\n", j-1,
           // m_recorder[j-1].first(), m_recorder[j-1].second()); printf("index j
@@ -1255,7 +1258,8 @@ MNM_Cumulative_Curve::get_time (TFlt result, bool rounding_up)
             lower_bound (m_recorder.begin (), _lower_j,
                          m_recorder[j - 1].second,
                          [] (const std::pair<TFlt, TFlt> &r, TFlt v) {
-                           return MNM_Ults::approximate_less_than (r.second, v);
+                           return MNM_Ults::
+                             approximate_less_than (r.second, v, m_tolerance);
                          });
           i = std::distance (m_recorder.begin (), _lower_i);
           IAssert (i < j);
diff --git a/src/dlink.h b/src/dlink.h
index 5fd20d4..90eb7aa 100644
--- a/src/dlink.h
+++ b/src/dlink.h
@@ -32,6 +32,10 @@ public:
   std::string to_string ();
   int shrink (TInt number);
 
+  // relative tolerance when comparing time stamps or flows; small enough to
+  // tell neighboring time stamps and vehicles apart in long loadings
+  static constexpr TFlt m_tolerance = 1e-8;
+
 private:
   int arrange ();
   int arrange2 ();
diff --git a/src/dta_gradient_utls.cpp b/src/dta_gradient_utls.cpp
index d690ee3..b12956f 100644
--- a/src/dta_gradient_utls.cpp
+++ b/src/dta_gradient_utls.cpp
@@ -57,10 +57,11 @@ TFlt
 get_last_valid_time (MNM_Cumulative_Curve *N_in, MNM_Cumulative_Curve *N_out,
                      TInt end_loading_timestamp, const std::string &s)
 {
+  const TFlt _p = MNM_Cumulative_Curve::m_tolerance;
   if (MNM_Ults::approximate_less_than (N_in->m_recorder.back ().second,
-                                       N_out->m_recorder.back ().second)
+                                       N_out->m_recorder.back ().second, _p)
       && !MNM_Ults::approximate_equal (N_in->m_recorder.back ().second,
-                                       N_out->m_recorder.back ().second))
+                                       N_out->m_recorder.back ().second, _p))
     {
       printf ("max in cc flow: %lf, max out cc flow: %lf\n",
               N_in->m_recorder.back ().second,
@@ -75,7 +76,8 @@ get_last_valid_time (MNM_Cumulative_Curve *N_in, MNM_Cumulative_Curve *N_out,
   TFlt _cc_flow = N_out->m_recorder.back ().second;
 
   // link is empty after end_loading_timestamp
-  if (MNM_Ults::approximate_equal (_cc_flow, N_in->m_recorder.back ().second))
+  if (MNM_Ults::approximate_equal (_cc_flow, N_in->m_recorder.back ().second,
+                                   _p))
     {
       return TFlt (end_loading_timestamp);
     }
@@ -93,7 +95,8 @@ get_last_valid_time (MNM_Cumulative_Curve *N_in, MNM_Cumulative_Curve *N_out,
         {
           if (MNM_Ults::approximate_less_than (_cc_flow,
                                                N_in->get_result (
-                                                 TFlt (_last_valid_time + i))))
+                                                 TFlt (_last_valid_time + i)),
+                                               _p))
             {
               return TFlt (_last_valid_time + i - 1);
             }
-- 
2.43.0


From 1c1e1e6bd58eaeeb40719e61438e2791489a0028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:03 +0000
Subject: [PATCH 11/50] fix: free the arrays of the time-dependent trees and
 cost maps as arrays

---
 src/dso.cpp           |  4 ++--
 src/due.cpp           |  4 ++--
 src/shortest_path.cpp | 13 ++++---------
 3 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/dso.cpp b/src/dso.cpp
index 44b0428..1fb031f 100644
--- a/src/dso.cpp
+++ b/src/dso.cpp
@@ -11,12 +11,12 @@ MNM_Dso::~MNM_Dso ()
 {
   for (auto _it : m_link_congested)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_link_congested.clear ();
   for (auto _it : m_queue_dissipated_time)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_queue_dissipated_time.clear ();
 }
diff --git a/src/due.cpp b/src/due.cpp
index d4fa8ed..ebb3fa9 100644
--- a/src/due.cpp
+++ b/src/due.cpp
@@ -398,12 +398,12 @@ MNM_Due_Msa::~MNM_Due_Msa ()
 {
   for (auto _tt_it : m_link_tt_map)
     {
-      delete _tt_it.second;
+      delete[] _tt_it.second;
     }
   m_link_tt_map.clear ();
   for (auto _cost_it : m_link_cost_map)
     {
-      delete _cost_it.second;
+      delete[] _cost_it.second;
     }
   m_link_cost_map.clear ();
   delete m_base_dta;
diff --git a/src/shortest_path.cpp b/src/shortest_path.cpp
index 2748bd8..9ea9a63 100644
--- a/src/shortest_path.cpp
+++ b/src/shortest_path.cpp
@@ -569,15 +569,10 @@ MNM_TDSP_Tree::MNM_TDSP_Tree (TInt dest_node_ID, macposts::Graph &graph,
 
 MNM_TDSP_Tree::~MNM_TDSP_Tree ()
 {
-  TInt _node_ID;
-  for (const auto &n : m_graph.nodes ())
-    {
-      _node_ID = m_graph.get_id (n);
-      if (m_dist[_node_ID] != nullptr)
-        delete m_dist[_node_ID];
-      if (m_tree[_node_ID] != nullptr)
-        delete m_tree[_node_ID];
-    }
+  for (auto _it : m_dist)
+    delete[] _it.second;
+  for (auto _it : m_tree)
+    delete[] _it.second;
   m_dist.clear ();
   m_tree.clear ();
 }
-- 
2.43.0


From f6b6a3aca5b98a015b7223f2b738676d8bf399a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:46 +0000
Subject: [PATCH 12/50] fix: the rounding-up time query of a curve never reads
 past its end

---
 src/dlink.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dlink.cpp b/src/dlink.cpp
index 78bb08c..6f851ec 100644
--- a/src/dlink.cpp
+++ b/src/dlink.cpp
@@ -1234,7 +1234,7 @@ MNM_Cumulative_Curve::get_time (TFlt result, bool rounding_up)
                         });
   j = std::distance (m_recorder.begin (), _lower_j);
   IAssert (j >= 1);
-  if (rounding_up)
+  if (rounding_up && _lower_j != m_recorder.end ())
     {
       return m_recorder[j].first;
     }
-- 
2.43.0


From bf60d73f270fd2c087284ca3852c1b65abb2d0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:17 +0000
Subject: [PATCH 13/50] fix: the free-flow time of a link-queue link is in
 loading intervals, not seconds

---
 src/dlink.cpp      | 3 ++-
 src/multiclass.cpp | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/dlink.cpp b/src/dlink.cpp
index 6f851ec..9c9ab7f 100644
--- a/src/dlink.cpp
+++ b/src/dlink.cpp
@@ -937,7 +937,8 @@ MNM_Dlink_Lq::get_link_freeflow_tt_loading ()
 {
   // throw std::runtime_error("Error, MNM_Dlink_Lq::get_link_freeflow_tt_loading
   // NOT implemented");
-  return MNM_Ults::round_up_time (m_length / m_ffs);
+  // in loading intervals
+  return MNM_Ults::round_up_time (m_length / (m_ffs * m_unit_time));
 }
 
 /**************************************************************************
diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index fe9021e..413412c 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -1946,7 +1946,8 @@ MNM_Dlink_Lq_Multiclass::get_link_freeflow_tt_loading_car ()
   // throw std::runtime_error("Error,
   // MNM_Dlink_Lq_Multiclass::get_link_freeflow_tt_loading_car NOT
   // implemented");
-  return MNM_Ults::round_up_time (m_length / m_ffs_car);
+  // in loading intervals
+  return MNM_Ults::round_up_time (m_length / (m_ffs_car * m_unit_time));
 }
 
 TInt
@@ -1955,7 +1956,8 @@ MNM_Dlink_Lq_Multiclass::get_link_freeflow_tt_loading_truck ()
   // throw std::runtime_error("Error,
   // MNM_Dlink_Lq_Multiclass::get_link_freeflow_tt_loading_truck NOT
   // implemented");
-  return MNM_Ults::round_up_time (m_length / m_ffs_truck);
+  // in loading intervals
+  return MNM_Ults::round_up_time (m_length / (m_ffs_truck * m_unit_time));
 }
 
 /// Multiclass point queue model
-- 
2.43.0


From e7a1989fb9e2580194576e4019722cbfe6df7404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:54 +0000
Subject: [PATCH 14/50] fix: the general road junction splits the flow by
 turning shares and bounds it by every out link

The share of an in link's flow toward an out link is that of its vehicles
heading there, not the ratio of demand to supply; out links that take
everything do not bound theta (0/0 before); theta respects all out links.
---
 src/dnode.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/dnode.cpp b/src/dnode.cpp
index 07d1c48..30e7ecf 100644
--- a/src/dnode.cpp
+++ b/src/dnode.cpp
@@ -1,6 +1,8 @@
 #include "dnode.h"
 #include "path.h"
 
+#include <limits>
+
 MNM_Dnode::MNM_Dnode (TInt ID, TFlt flow_scalar)
 {
   m_node_ID = ID;
@@ -592,7 +594,7 @@ MNM_Dnode_GRJ::compute_flow ()
       for (size_t j = 0; j < m_out_link_array.size (); ++j)
         {
           m_veh_flow[i * _offset + j]
-            = _f_a * MNM_Ults::divide (m_demand[i * _offset + j], m_supply[j]);
+            = _f_a * MNM_Ults::divide (m_demand[i * _offset + j], m_d_a[i]);
           // printf("to link %d the flow is %.4f\n", m_out_link_array[j] ->
           // m_link_ID, m_veh_flow[i * _offset + j]);
         }
@@ -693,25 +695,31 @@ MNM_Dnode_GRJ::get_theta ()
                 {
                   _down += m_C_a[i]
                            * MNM_Ults::divide (m_demand[i * _offset + j],
-                                               m_supply[j]);
+                                               m_d_a[i]);
                 }
               else
                 {
-                  _up += m_d_a[i]
-                         * MNM_Ults::divide (m_demand[i * _offset + j],
-                                             m_supply[j]);
+                  _up += m_demand[i * _offset + j];
                 }
             }
           // printf("for j is %d, the value of cal is %lf, s is %lf, up is %lf,
           // down is %lf\n", j, (m_supply[j] - _up)/_down ,m_supply[j](), _up(),
           // _down());
-          _temp3.push_back ((m_supply[j] - _up) / _down);
+          if (_down > 0)
+            {
+              _temp3.push_back ((m_supply[j] - _up) / _down);
+            }
+          else if (_up <= std::max (m_supply[j], TFlt (0)))
+            {
+              // out link j can take everything, it does not bound theta
+              _temp3.push_back (std::numeric_limits<TFlt>::infinity ());
+            }
         }
       _temp2.push_back (*max_element (_temp3.begin (), _temp3.end ()));
     }
   // printf("s3\n");
   // printf("_temp2 size %d\n", _temp2.size());
-  TFlt _e2 = *max_element (_temp2.begin (), _temp2.end ());
+  TFlt _e2 = *min_element (_temp2.begin (), _temp2.end ());
 
   // printf("e1 is %lf, e2 is %lf\n", _e1(), _e2());
   // total
-- 
2.43.0


From acecb62049fd86037387a7b7535f6e483eaad519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:49 +0000
Subject: [PATCH 15/50] fix: a link-queue link of the two-class loading starts
 from an empty road

The perceived densities were read before they were ever set.
---
 src/multiclass.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 413412c..705cb23 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -1370,6 +1370,9 @@ MNM_Dlink_Lq_Multiclass::MNM_Dlink_Lq_Multiclass (
   m_space_fraction_car = TFlt (1);
   m_space_fraction_truck = TFlt (0);
 
+  m_perceived_density_car = TFlt (0);
+  m_perceived_density_truck = TFlt (0);
+
   m_flow_scalar = flow_scalar;
   m_unit_time = unit_time;
   m_veh_convert_factor = veh_convert_factor;
-- 
2.43.0


From 93b1e6fe0d5011404640d9a53d284fb35e3784d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:51 +0000
Subject: [PATCH 16/50] fix: the order of release does not depend on the
 addresses of the destinations

---
 src/multiclass.cpp  |  6 ++++--
 src/multiclass.h    |  6 ++++--
 src/multimodal.cpp  |  7 ++++---
 src/multimodal.h    |  5 +++--
 src/od.cpp          |  5 +++--
 src/od.h            | 13 ++++++++++++-
 src/pre_routing.cpp |  4 +---
 7 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 705cb23..a6ebf73 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -2869,8 +2869,10 @@ MNM_Origin_Multiclass::MNM_Origin_Multiclass (TInt ID, TInt max_interval,
                                               TFlt flow_scalar, TInt frequency)
     : MNM_Origin::MNM_Origin (ID, max_interval, flow_scalar, frequency)
 {
-  m_demand_car = std::unordered_map<MNM_Destination_Multiclass *, TFlt *> ();
-  m_demand_truck = std::unordered_map<MNM_Destination_Multiclass *, TFlt *> ();
+  m_demand_car = std::unordered_map<MNM_Destination_Multiclass *, TFlt *,
+                                    MNM_Destination_Hash> ();
+  m_demand_truck = std::unordered_map<MNM_Destination_Multiclass *, TFlt *,
+                                      MNM_Destination_Hash> ();
   m_adaptive_ratio_car = std::unordered_map<MNM_Destination_Multiclass *, TFlt *> ();
   m_adaptive_ratio_truck = std::unordered_map<MNM_Destination_Multiclass *, TFlt *> ();
   m_car_label_ratio = std::vector<TFlt> ();
diff --git a/src/multiclass.h b/src/multiclass.h
index b83d086..0397ffd 100644
--- a/src/multiclass.h
+++ b/src/multiclass.h
@@ -424,8 +424,10 @@ public:
                                           TFlt *ad_ratio_car, TFlt *ad_ratio_truck,
                                           TInt num_of_minute);
   // two new unordered_map for both classes
-  std::unordered_map<MNM_Destination_Multiclass *, TFlt *> m_demand_car;
-  std::unordered_map<MNM_Destination_Multiclass *, TFlt *> m_demand_truck;
+  std::unordered_map<MNM_Destination_Multiclass *, TFlt *, MNM_Destination_Hash>
+    m_demand_car;
+  std::unordered_map<MNM_Destination_Multiclass *, TFlt *, MNM_Destination_Hash>
+    m_demand_truck;
   std::unordered_map<MNM_Destination_Multiclass *, TFlt *> m_adaptive_ratio_car;
   std::unordered_map<MNM_Destination_Multiclass *, TFlt *> m_adaptive_ratio_truck;
 
diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 00de1f5..05a39b2 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -2507,9 +2507,10 @@ MNM_Origin_Multimodal::MNM_Origin_Multimodal (TInt ID, TInt max_interval,
                                                     flow_scalar, frequency)
 {
   m_demand_bus = std::unordered_map<MNM_Destination_Multimodal *,
-                                    std::unordered_map<TInt, TFlt *>> ();
-  m_demand_pnr_car
-    = std::unordered_map<MNM_Destination_Multimodal *, TFlt *> ();
+                                    std::unordered_map<TInt, TFlt *>,
+                                    MNM_Destination_Hash> ();
+  m_demand_pnr_car = std::unordered_map<MNM_Destination_Multimodal *, TFlt *,
+                                        MNM_Destination_Hash> ();
   m_demand_passenger_bus
     = std::unordered_map<MNM_Destination_Multimodal *, TFlt *> ();
   m_walking_out_links_vec = std::vector<MNM_Walking_Link *> ();
diff --git a/src/multimodal.h b/src/multimodal.h
index a9e51b3..f04bf82 100644
--- a/src/multimodal.h
+++ b/src/multimodal.h
@@ -431,10 +431,11 @@ public:
 
   // <Destination node, <routeID, time-varying demand>>
   std::unordered_map<MNM_Destination_Multimodal *,
-                     std::unordered_map<TInt, TFlt *>>
+                     std::unordered_map<TInt, TFlt *>, MNM_Destination_Hash>
     m_demand_bus;
   // <Destination node, time-varying demand>
-  std::unordered_map<MNM_Destination_Multimodal *, TFlt *> m_demand_pnr_car;
+  std::unordered_map<MNM_Destination_Multimodal *, TFlt *, MNM_Destination_Hash>
+    m_demand_pnr_car;
   // <Destination node, time-varying demand>
   std::unordered_map<MNM_Destination_Multimodal *, TFlt *>
     m_demand_passenger_bus;
diff --git a/src/od.cpp b/src/od.cpp
index fabcbed..0e1ee93 100644
--- a/src/od.cpp
+++ b/src/od.cpp
@@ -14,8 +14,9 @@ MNM_Origin::MNM_Origin (TInt ID, TInt max_interval, TFlt flow_scalar,
     }
   m_frequency = frequency;
   m_demand
-    = std::unordered_map<MNM_Destination *,
-                         TFlt *> (); // destination node, time-varying demand
+    = std::unordered_map<MNM_Destination *, TFlt *,
+                         MNM_Destination_Hash> (); // destination node,
+                                                   // time-varying demand
   m_adaptive_ratio
     = std::unordered_map<MNM_Destination *,
                          TFlt *> (); // destination node, time-varying adaptive ratio
diff --git a/src/od.h b/src/od.h
index db1ef5d..808c365 100644
--- a/src/od.h
+++ b/src/od.h
@@ -15,6 +15,17 @@ class MNM_DMOND;
 class MNM_DMDND;
 class MNM_Routing;
 
+// Hash destinations by their IDs, so that the order of the demand (and with it
+// the order in which vehicles are released) does not depend on where the
+// destinations happen to be allocated.
+struct MNM_Destination_Hash
+{
+  template <typename T> std::size_t operator() (const T *dest) const
+  {
+    return std::hash<int> () (dest->m_Dest_ID);
+  }
+};
+
 class MNM_Origin
 {
 public:
@@ -46,7 +57,7 @@ public:
   TInt m_current_assign_interval;
   TInt m_max_assign_interval;
   TFlt m_flow_scalar;
-  std::unordered_map<MNM_Destination *, TFlt *> m_demand;
+  std::unordered_map<MNM_Destination *, TFlt *, MNM_Destination_Hash> m_demand;
   std::unordered_map<MNM_Destination *, TFlt *> m_adaptive_ratio;
 
   std::vector<TFlt> m_vehicle_label_ratio;
diff --git a/src/pre_routing.cpp b/src/pre_routing.cpp
index 47d6e0d..82e9633 100644
--- a/src/pre_routing.cpp
+++ b/src/pre_routing.cpp
@@ -33,9 +33,7 @@ MNM_Pre_Routing::MNM_Pre_Routing (Path_Table *path_table,
           _origin_node_ID = _o_it->second->m_origin_node->m_node_ID;
           //-----
           int size_demand = _o_it->second->m_max_assign_interval;
-          std::unordered_map<MNM_Destination *, TFlt *>::const_iterator
-            demand_it
-            = _o_it->second->m_demand.find (_d_it->second);
+          auto demand_it = _o_it->second->m_demand.find (_d_it->second);
           if (demand_it != _o_it->second->m_demand.end ())
             {
               TFlt *demand = demand_it->second;
-- 
2.43.0


From d88c4d4956488c5f1eb1a91ba835bdce22e55548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:14 +0000
Subject: [PATCH 17/50] fix: tolls of the time-dependent link attributes keep
 their fraction

---
 src/io.cpp         | 2 +-
 src/multiclass.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index 8c0d8a5..81ccc04 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -760,7 +760,7 @@ MNM_IO::build_link_td_attribute (const std::string &file_folder,
               _lane_hold_cap = TFlt (
                 std::stod (_words[6])); // jam density (vehicles/mile/lane)
               _number_of_lane = TInt (std::stoi (_words[7]));
-              _toll = TFlt (std::stoi (_words[8]));
+              _toll = TFlt (std::stod (_words[8]));
 
               /* unit conversion */
               // mile -> meter, hour -> second
diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index a6ebf73..a470526 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -4231,7 +4231,7 @@ MNM_IO_Multiclass::build_link_td_attribute (const std::string &file_folder,
               _lane_flow_cap_truck = TFlt (std::stod (_words[9]));
               _lane_hold_cap_truck = TFlt (std::stod (_words[10]));
               _veh_convert_factor = TFlt (std::stod (_words[11]));
-              _toll = TFlt (std::stoi (_words[12]));
+              _toll = TFlt (std::stod (_words[12]));
 
               /* unit conversion */
               // mile -> meter, hour -> second
-- 
2.43.0


From a8cf65d0beb5c319b3264c3afeb8d1b0979ef613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:43 +0000
Subject: [PATCH 18/50] fix: count distinct trips by vehicle ID in two-class
 emission statistics

Finished vehicles are deleted, so a later vehicle may be allocated at the same
address; the set of addresses then counted both as one trip.
---
 src/multiclass.cpp | 8 ++++----
 src/multiclass.h   | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index a470526..a6d7b50 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -5961,8 +5961,8 @@ MNM_Cumulative_Emission_Multiclass::MNM_Cumulative_Emission_Multiclass (
 
   m_ev_label_truck = ev_label_truck;
 
-  m_car_set = std::unordered_set<MNM_Veh *> ();
-  m_truck_set = std::unordered_set<MNM_Veh *> ();
+  m_car_set = std::unordered_set<TInt> ();
+  m_truck_set = std::unordered_set<TInt> ();
 }
 
 MNM_Cumulative_Emission_Multiclass::~MNM_Cumulative_Emission_Multiclass () { ; }
@@ -6147,11 +6147,11 @@ MNM_Cumulative_Emission_Multiclass::update (MNM_Veh_Factory *veh_factory)
         {
           if (_veh_multiclass->m_class == 0)
             {
-              m_car_set.insert (_veh_multiclass);
+              m_car_set.insert (_veh_multiclass->m_veh_ID);
             }
           if (_veh_multiclass->m_class == 1)
             {
-              m_truck_set.insert (_veh_multiclass);
+              m_truck_set.insert (_veh_multiclass->m_veh_ID);
             }
         }
     }
diff --git a/src/multiclass.h b/src/multiclass.h
index 0397ffd..114e421 100644
--- a/src/multiclass.h
+++ b/src/multiclass.h
@@ -792,8 +792,8 @@ public:
 
   TInt m_ev_label_truck;
 
-  std::unordered_set<MNM_Veh *> m_car_set;
-  std::unordered_set<MNM_Veh *> m_truck_set;
+  std::unordered_set<TInt> m_car_set;
+  std::unordered_set<TInt> m_truck_set;
 };
 
 /******************************************************************************************************************
-- 
2.43.0


From c1ea37a0d4d6dec250f9c9d13795b47bbfeb67ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:43 +0000
Subject: [PATCH 19/50] fix: release array members of the extension classes
 with delete[]

---
 macposts/_ext/dta.cpp   |  8 ++++----
 macposts/_ext/mcdta.cpp | 16 ++++++++--------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/macposts/_ext/dta.cpp b/macposts/_ext/dta.cpp
index 03d9f20..8d36b49 100644
--- a/macposts/_ext/dta.cpp
+++ b/macposts/_ext/dta.cpp
@@ -184,25 +184,25 @@ Dta::~Dta ()
 
   for (auto _tt_it : m_link_tt_map)
     {
-      delete _tt_it.second;
+      delete[] _tt_it.second;
     }
   m_link_tt_map.clear ();
 
   for (auto _cost_it : m_link_cost_map)
     {
-      delete _cost_it.second;
+      delete[] _cost_it.second;
     }
   m_link_cost_map.clear ();
 
   for (auto _it : m_link_congested)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_link_congested.clear ();
 
   for (auto _it : m_queue_dissipated_time)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_queue_dissipated_time.clear ();
 }
diff --git a/macposts/_ext/mcdta.cpp b/macposts/_ext/mcdta.cpp
index f7b8572..f6af64a 100644
--- a/macposts/_ext/mcdta.cpp
+++ b/macposts/_ext/mcdta.cpp
@@ -310,49 +310,49 @@ Mcdta::~Mcdta ()
 
   for (auto _tt_it : m_link_tt_map)
     {
-      delete _tt_it.second;
+      delete[] _tt_it.second;
     }
   m_link_tt_map.clear ();
 
   for (auto _tt_it : m_link_tt_map_truck)
     {
-      delete _tt_it.second;
+      delete[] _tt_it.second;
     }
   m_link_tt_map_truck.clear ();
 
   for (auto _cost_it : m_link_cost_map)
     {
-      delete _cost_it.second;
+      delete[] _cost_it.second;
     }
   m_link_cost_map.clear ();
 
   for (auto _cost_it : m_link_cost_map_truck)
     {
-      delete _cost_it.second;
+      delete[] _cost_it.second;
     }
   m_link_cost_map_truck.clear ();
 
   for (auto _it : m_link_congested_car)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_link_congested_car.clear ();
 
   for (auto _it : m_link_congested_truck)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_link_congested_truck.clear ();
 
   for (auto _it : m_queue_dissipated_time_car)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_queue_dissipated_time_car.clear ();
 
   for (auto _it : m_queue_dissipated_time_truck)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_queue_dissipated_time_truck.clear ();
 
-- 
2.43.0


From cef1d292828bc74efccf32a6916a502f0cf841f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:14 +0000
Subject: [PATCH 20/50] fix: keep path flows nonnegative when departure-time
 choice adds a path

---
 src/due.cpp | 97 +++++++++++++++--------------------------------------
 1 file changed, 27 insertions(+), 70 deletions(-)

diff --git a/src/due.cpp b/src/due.cpp
index ebb3fa9..ac659a0 100644
--- a/src/due.cpp
+++ b/src/due.cpp
@@ -556,8 +556,9 @@ MNM_Due_Msa::update_path_table (MNM_Dta *dta, int iter)
   std::pair<MNM_Path *, TInt> _path_result;
   MNM_Path *_path;
   MNM_Pathset *_path_set;
-  TFlt _tot_change, _tmp_change, _tot_oneOD_demand, _len;
+  TFlt _tot_change, _tmp_change, _tot_oneOD_demand;
   MNM_Path *_best_path;
+  bool _exist;
   int _best_time_col;
   int _best_assign_col;
 
@@ -604,83 +605,39 @@ MNM_Due_Msa::update_path_table (MNM_Dta *dta, int iter)
           if (_path_set->is_in (_path))
             {
               printf ("Update current pathset\n");
-              for (auto _tmp_path : _path_set->m_path_vec)
-                {
-                  for (int _col = 0; _col < m_total_assign_inter; _col++)
-                    {
-                      if ((!(*_tmp_path == *_path))
-                          || (_col != _best_assign_col))
-                        {
-                          // printf("dd %lf\n", _tmp_path -> m_buffer[_col]());
-                          // printf("iter %d\n", iter);
-                          // Original
-                          _tmp_change
-                            = std::min (_tmp_path->m_buffer[_col],
-                                        _tot_oneOD_demand * m_step_size
-                                          / TFlt (iter + 1));
-                          // Modified by Zou
-                          // _tmp_change = _tmp_path->m_buffer[_col] *
-                          // m_step_size / TFlt(iter + 1); printf("tmp change
-                          // %lf\n", _tmp_change());
-                          _tmp_path->m_buffer[_col] -= _tmp_change;
-                          _tot_change += _tmp_change;
-                        }
-                    }
-                  if (*_tmp_path == *_path)
-                    {
-                      _best_path = _tmp_path;
-                    }
-                }
-              // printf("dddd, %lf\n", _tot_change());
-              _best_path->m_buffer[_best_assign_col] += _tot_change;
-              // printf("sssss\n");
-              delete _path;
+              _exist = true;
             }
           else
             {
               printf ("Adding new path\n");
-
-              // IAssert(_path->m_travel_time_vec.empty() &&
-              //         _path->m_travel_disutility_vec.empty());
-              // update_one_path_cost(_path, _orig_node_ID, _dest_node_ID, dta);
-
-              // Original
               _path->allocate_buffer (m_total_assign_inter);
-              _path->m_buffer[_best_assign_col]
-                += m_step_size / TFlt (iter + 1);
-              _len = TFlt (_path_set->m_path_vec.size ());
-              for (auto tmp_path : _path_set->m_path_vec)
-                {
-                  tmp_path->m_buffer[_best_assign_col]
-                    -= m_step_size / TFlt (iter + 1) / _len;
-                }
               _path_set->m_path_vec.push_back (_path);
+              _exist = false;
+            }
 
-              // Modified by Zou
-              //                _path->allocate_buffer(m_total_assign_inter);
-              //                _path_set->m_path_vec.push_back(_path);
-              //                for (auto _tmp_path : _path_set->m_path_vec) {
-              //                    for (int _col = 0; _col <
-              //                    m_total_assign_inter; _col++) {
-              //                        if ((!(*_tmp_path == *_path)) || (_col
-              //                        != _best_assign_col)) {
-              //                            _tmp_change =
-              //                            _tmp_path->m_buffer[_col] *
-              //                            m_step_size / TFlt(iter + 1);
-              //                            // printf("tmp change %lf\n",
-              //                            _tmp_change());
-              //                            _tmp_path->m_buffer[_col] -=
-              //                            _tmp_change; _tot_change +=
-              //                            _tmp_change;
-              //                        }
-              //                    }
-              //                    if (*_tmp_path == *_path) {
-              //                        _best_path = _tmp_path;
-              //                    }
-              //                }
-              //                _best_path->m_buffer[_best_assign_col] +=
-              //                _tot_change;
+          // never take more than what a path carries
+          for (auto _tmp_path : _path_set->m_path_vec)
+            {
+              for (int _col = 0; _col < m_total_assign_inter; _col++)
+                {
+                  if ((!(*_tmp_path == *_path)) || (_col != _best_assign_col))
+                    {
+                      _tmp_change
+                        = std::min (_tmp_path->m_buffer[_col],
+                                    _tot_oneOD_demand * m_step_size
+                                      / TFlt (iter + 1));
+                      _tmp_path->m_buffer[_col] -= _tmp_change;
+                      _tot_change += _tmp_change;
+                    }
+                }
+              if (*_tmp_path == *_path)
+                {
+                  _best_path = _tmp_path;
+                }
             }
+          _best_path->m_buffer[_best_assign_col] += _tot_change;
+          if (_exist)
+            delete _path;
         }
       delete _tdsp_tree;
     }
-- 
2.43.0


From 54a1d04e9fc9915e96901d95dfefa503fcb5a490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:30 +0000
Subject: [PATCH 21/50] fix: choose the departure time by travel time, not by
 cost

---
 src/due.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/due.cpp b/src/due.cpp
index ac659a0..7c7c1a6 100644
--- a/src/due.cpp
+++ b/src/due.cpp
@@ -493,10 +493,10 @@ MNM_Due_Msa::get_best_route (TInt o_node_ID, MNM_TDSP_Tree *tdsp_tree)
   TFlt _tmp_tt, _tmp_cost;
   for (int i = 0; i < tdsp_tree->m_max_interval; ++i)
     { // tdsp_tree -> m_max_interval = total_loading_interval
+      // m_dist is in terms of cost, not time
+      MNM_Path _tmp_path;
       _tmp_tt
-        = tdsp_tree->m_dist[o_node_ID][i < (int) tdsp_tree->m_max_interval
-                                         ? i
-                                         : (int) tdsp_tree->m_max_interval - 1];
+        = tdsp_tree->get_tdsp (o_node_ID, i, m_link_tt_map, &_tmp_path);
       std::cout << "interval: " << i << ", tdsp_tt: " << _tmp_tt << "\n";
       _tmp_cost = get_disutility (TFlt (i), _tmp_tt);
       if (_tmp_cost < _cur_best_cost)
-- 
2.43.0


From cc1c44342b636028b18a38a1be98213546f92a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:39 +0000
Subject: [PATCH 22/50] fix: size the link cost maps to the loading they
 describe

---
 macposts/_ext/dta.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/macposts/_ext/dta.cpp b/macposts/_ext/dta.cpp
index 8d36b49..69817c2 100644
--- a/macposts/_ext/dta.cpp
+++ b/macposts/_ext/dta.cpp
@@ -1007,25 +1007,29 @@ Dta::build_link_cost_map (bool with_congestion_indicator)
     {
       // #pragma omp task
       _link = _link_it.second;
-      if (m_link_tt_map.find (_link_it.first) == m_link_tt_map.end ())
+      // loadings may differ in length (e.g., iterations of run_due), so arrays of
+      // an earlier one cannot be reused
+      if (m_link_tt_map.find (_link_it.first) != m_link_tt_map.end ())
         {
-          m_link_tt_map[_link_it.first] = new TFlt[get_cur_loading_interval ()];
+          delete[] m_link_tt_map[_link_it.first];
         }
-      if (m_link_cost_map.find (_link_it.first) == m_link_cost_map.end ())
+      m_link_tt_map[_link_it.first] = new TFlt[get_cur_loading_interval ()];
+      if (m_link_cost_map.find (_link_it.first) != m_link_cost_map.end ())
         {
-          m_link_cost_map[_link_it.first]
-            = new TFlt[get_cur_loading_interval ()];
+          delete[] m_link_cost_map[_link_it.first];
         }
+      m_link_cost_map[_link_it.first] = new TFlt[get_cur_loading_interval ()];
       if (with_congestion_indicator)
         {
           // std::cout << "car, interval: " << i << ", link: " << _link_it.first
           // << ", tt: " << m_link_tt_map[_link_it.first][i] << ", fftt: " <<
           // _link -> get_link_freeflow_tt_car() / m_unit_time << "\n";
-          if (m_link_congested.find (_link_it.first) == m_link_congested.end ())
+          if (m_link_congested.find (_link_it.first) != m_link_congested.end ())
             {
-              m_link_congested[_link_it.first]
-                = new bool[get_cur_loading_interval ()];
+              delete[] m_link_congested[_link_it.first];
             }
+          m_link_congested[_link_it.first]
+            = new bool[get_cur_loading_interval ()];
         }
 
       std::cout << "********************** build_link_cost_map link "
-- 
2.43.0


From 6f19d652c82684cd798bff769e0f556dd5e93213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:28 +0000
Subject: [PATCH 23/50] fix: gradient projection no longer creates flow on an
 unused path costlier than the average

---
 src/due.cpp | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/due.cpp b/src/due.cpp
index 7c7c1a6..d3ed3fc 100644
--- a/src/due.cpp
+++ b/src/due.cpp
@@ -762,7 +762,7 @@ MNM_Due_Msa::update_path_table_gp_fixed_departure_time_choice (MNM_Dta *dta,
   MNM_Path *_path;
   MNM_Pathset *_path_set;
   TFlt _tot_path_cost, _tmp_change, _tau, _tmp_tt, _tmp_cost, _min_flow;
-  bool _exist, _flg;
+  bool _exist, _flg, _best_active;
 
   // assume build_link_cost_map(dta) and update_path_table_cost(dta) are invoked
   // beforehand
@@ -825,10 +825,36 @@ MNM_Due_Msa::update_path_table_gp_fixed_departure_time_choice (MNM_Dta *dta,
                   _exist = false;
                 }
 
+              // the least-cost path (tolls included) may have a higher disutility
+              // than the used paths; an unused one then stays unused
+              _best_active = true;
+              for (auto _tmp_path : _path_set->m_path_vec)
+                {
+                  if (_tmp_path->m_buffer[_col] > 0)
+                    {
+                      _tot_path_cost
+                        += _tmp_path->m_travel_disutility_vec[_col];
+                      _tot_nonzero_path += 1;
+                    }
+                }
+              for (auto _tmp_path : _path_set->m_path_vec)
+                {
+                  if ((*_tmp_path == *_path) && (_tot_nonzero_path > 0)
+                      && (_tmp_path->m_travel_disutility_vec[_col]
+                            * _tot_nonzero_path
+                          > _tot_path_cost))
+                    {
+                      _best_active = false;
+                    }
+                }
+              _tot_path_cost = 0.0;
+              _tot_nonzero_path = 0;
+
               // average path cost
               for (auto _tmp_path : _path_set->m_path_vec)
                 {
-                  if ((*_tmp_path == *_path) || (_tmp_path->m_buffer[_col] > 0))
+                  if ((_best_active && (*_tmp_path == *_path))
+                      || (_tmp_path->m_buffer[_col] > 0))
                     {
                       // _tmp_tt = get_tt(_col *
                       // m_dta_config->get_int("assign_frq"), _tmp_path);
@@ -853,7 +879,8 @@ MNM_Due_Msa::update_path_table_gp_fixed_departure_time_choice (MNM_Dta *dta,
               // minimum tau
               for (auto _tmp_path : _path_set->m_path_vec)
                 {
-                  if ((*_tmp_path == *_path) || (_tmp_path->m_buffer[_col] > 0))
+                  if ((_best_active && (*_tmp_path == *_path))
+                      || (_tmp_path->m_buffer[_col] > 0))
                     {
                       // _tmp_tt = get_tt(_col *
                       // m_dta_config->get_int("assign_frq"), _tmp_path);
@@ -885,7 +912,8 @@ MNM_Due_Msa::update_path_table_gp_fixed_departure_time_choice (MNM_Dta *dta,
               // flow adjustment
               for (auto _tmp_path : _path_set->m_path_vec)
                 {
-                  if ((*_tmp_path == *_path) || (_tmp_path->m_buffer[_col] > 0))
+                  if ((_best_active && (*_tmp_path == *_path))
+                      || (_tmp_path->m_buffer[_col] > 0))
                     {
                       // _tmp_tt = get_tt(_col *
                       // m_dta_config->get_int("assign_frq"), _tmp_path);
-- 
2.43.0


From 8e90ee1517015e7b3383e0af183748f903b080f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:40 +0000
Subject: [PATCH 24/50] fix: a cell's capacity is already per interval in the
 system-optimum marginal costs

---
 macposts/_ext/dta.cpp | 3 +--
 src/dso.cpp           | 6 ++----
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/macposts/_ext/dta.cpp b/macposts/_ext/dta.cpp
index 69817c2..391316c 100644
--- a/macposts/_ext/dta.cpp
+++ b/macposts/_ext/dta.cpp
@@ -1144,8 +1144,7 @@ Dta::get_link_queue_dissipated_time ()
                                 + 1)); // veh / 5s
                       TFlt _cap = dynamic_cast<MNM_Dlink_Ctm *> (_link)
                                     ->m_cell_array.back ()
-                                    ->m_flow_cap
-                                  * m_dta->m_unit_time; // veh / 5s
+                                    ->m_flow_cap; // veh / 5s
                       if (MNM_Ults::approximate_equal (_outflow_rate
                                                          * m_dta->m_flow_scalar,
                                                        floor (
diff --git a/src/dso.cpp b/src/dso.cpp
index 1fb031f..e109031 100644
--- a/src/dso.cpp
+++ b/src/dso.cpp
@@ -100,8 +100,7 @@ MNM_Dso::get_link_marginal_cost (MNM_Dta *dta)
                                                                          // / 5s
                   TFlt _cap = dynamic_cast<MNM_Dlink_Ctm *> (_link)
                                 ->m_cell_array.front ()
-                                ->m_flow_cap
-                              * dta->m_unit_time; // veh / 5s
+                                ->m_flow_cap; // veh / 5s
                   if (MNM_Ults::approximate_less_than (_inflow_rate
                                                          * dta->m_flow_scalar,
                                                        floor (
@@ -192,8 +191,7 @@ MNM_Dso::get_link_marginal_cost (MNM_Dta *dta)
                                                           + 1)); // veh / 5s
                           TFlt _cap = dynamic_cast<MNM_Dlink_Ctm *> (_link)
                                         ->m_cell_array.back ()
-                                        ->m_flow_cap
-                                      * dta->m_unit_time; // veh / 5s
+                                        ->m_flow_cap; // veh / 5s
                           if (MNM_Ults::
                                 approximate_equal (_outflow_rate
                                                      * dta->m_flow_scalar,
-- 
2.43.0


From fa19d1363eaf75663385113406e219662e14cd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:50 +0000
Subject: [PATCH 25/50] fix: report input files with missing rows instead of
 reading them forever

The readers kept calling getline on a file that had ended (or, for the graph,
could not be opened) until enough rows had been seen, which never happens.
---
 src/io.cpp         | 32 ++++++++++++++++++++------------
 src/io.h           |  4 ++++
 src/multiclass.cpp |  6 +++---
 3 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index 81ccc04..1bb9d89 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -28,7 +28,7 @@ MNM_IO::build_node_factory (const std::string &file_folder,
     {
       for (int i = 0; i < _num_of_node;)
         {
-          std::getline (_node_file, _line);
+          read_line (_node_file, _line, _node_file_name);
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             {
@@ -109,7 +109,7 @@ MNM_IO::build_link_factory (const std::string &file_folder,
     {
       for (int i = 0; i < _num_of_link;)
         {
-          std::getline (_link_file, _line);
+          read_line (_link_file, _line, _link_file_name);
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             {
@@ -209,7 +209,7 @@ MNM_IO::build_od_factory (const std::string &file_folder,
     {
       for (int i = 0; i < _num_of_O;)
         {
-          std::getline (_od_file, _line);
+          read_line (_od_file, _line, _od_file_name);
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             {
@@ -235,7 +235,7 @@ MNM_IO::build_od_factory (const std::string &file_folder,
 
       for (int i = 0; i < _num_of_D;)
         {
-          std::getline (_od_file, _line);
+          read_line (_od_file, _line, _od_file_name);
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             {
@@ -288,7 +288,7 @@ MNM_IO::hook_up_od_node (const std::string &file_folder,
     {
       for (int i = 0; i < _num_of_O;)
         {
-          std::getline (_od_file, _line);
+          read_line (_od_file, _line, _od_file_name);
           _words = split (_line, ' ');
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
@@ -313,7 +313,7 @@ MNM_IO::hook_up_od_node (const std::string &file_folder,
 
       for (int i = 0; i < _num_of_D;)
         {
-          std::getline (_od_file, _line);
+          read_line (_od_file, _line, _od_file_name);
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             {
@@ -366,7 +366,7 @@ MNM_IO::build_od_factory (const std::string &file_folder,
     {
       for (int i = 0; i < _num_of_O;)
         {
-          std::getline (_od_file, _line);
+          read_line (_od_file, _line, _od_file_name);
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             {
@@ -386,7 +386,7 @@ MNM_IO::build_od_factory (const std::string &file_folder,
 
       for (int i = 0; i < _num_of_D;)
         {
-          std::getline (_od_file, _line);
+          read_line (_od_file, _line, _od_file_name);
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             {
@@ -554,7 +554,7 @@ MNM_IO::build_graph (const std::string &file_folder,
   std::vector<std::string> _words;
   for (int i = 0; i < _num_of_link;)
     {
-      std::getline (_graph_file, _line);
+      read_line (_graph_file, _line, _graph_file_name);
       _line = MNM_IO::trim (_line);
       if (_line.empty () || _line[0] == '#')
         {
@@ -619,7 +619,7 @@ MNM_IO::build_demand (const std::string &file_folder,
       double *_demand_vector = new double[_max_interval]();
       for (int i = 0; i < _num_OD;)
         {
-          std::getline (_demand_file, _line);
+          read_line (_demand_file, _line, _demand_file_name);
           // std::cout << "Processing: " << _line << "\n";
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
@@ -858,7 +858,7 @@ MNM_IO::load_path_table (const std::string &file_name,
     {
       for (int i = 0; i < Num_Path;)
         {
-          std::getline (_path_table_file, _line);
+          read_line (_path_table_file, _line, file_name);
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             {
@@ -984,7 +984,7 @@ MNM_IO::build_vms_facotory (const std::string &file_folder,
       // printf("Start build demand profile.\n");
       for (int i = 0; i < num_vms;)
         {
-          std::getline (_vms_file, _line);
+          read_line (_vms_file, _line, _vms_file_name);
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             {
@@ -1242,6 +1242,14 @@ MNM_IO::build_link_toll (const std::string &file_folder,
   return 0;
 }
 
+void
+MNM_IO::read_line (std::ifstream &file, std::string &line,
+                   const std::string &file_name)
+{
+  if (!std::getline (file, line))
+    throw std::runtime_error ("missing rows in file: " + file_name);
+}
+
 std::vector<std::string>
 MNM_IO::split (const std::string &text, char sep)
 {
diff --git a/src/io.h b/src/io.h
index 796b91a..cbfabb4 100644
--- a/src/io.h
+++ b/src/io.h
@@ -105,6 +105,10 @@ public:
                                     MNM_OD_Factory *od_factory,
                                     const std::string &file_name = "MNM_input_od_td_adaptive_ratio");
 
+  // read the next line of an input file, which has to be there
+  static void read_line (std::ifstream &file, std::string &line,
+                         const std::string &file_name);
+
   // private:
   static std::vector<std::string> split (const std::string &text, char sep);
   static std::string inline &ltrim (std::string &s)
diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index a6d7b50..0cec511 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -3601,7 +3601,7 @@ MNM_IO_Multiclass::build_node_factory_multiclass (
     {
       for (int i = 0; i < _num_of_node;)
         {
-          std::getline (_node_file, _line);
+          read_line (_node_file, _line, _node_file_name);
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             {
@@ -3688,7 +3688,7 @@ MNM_IO_Multiclass::build_link_factory_multiclass (
     {
       for (int i = 0; i < _num_of_link;)
         {
-          std::getline (_link_file, _line);
+          read_line (_link_file, _line, _link_file_name);
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             {
@@ -3823,7 +3823,7 @@ MNM_IO_Multiclass::build_demand_multiclass (const std::string &file_folder,
 
       for (int i = 0; i < _num_OD;)
         {
-          std::getline (_demand_file, _line);
+          read_line (_demand_file, _line, _demand_file_name);
           _line = trim (_line);
           if (_line.empty () || _line[0] == '#')
             continue;
-- 
2.43.0


From 1527376fcaef2edab1015e314a04ac4982d3cf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:25 +0000
Subject: [PATCH 26/50] fix: reject malformed rows of the OD, graph, path and
 label files

They were skipped silently, so that the network differed from its description
(or the reader went on with the values of another row).
---
 src/io.cpp         | 36 ++++++++++++++++++++++++++++++++++++
 src/multiclass.cpp |  8 ++++++++
 2 files changed, 44 insertions(+)

diff --git a/src/io.cpp b/src/io.cpp
index 1bb9d89..ef27dff 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -231,6 +231,10 @@ MNM_IO::build_od_factory (const std::string &file_folder,
               ((MNM_DMOND *) node_factory->get_node (_node_ID))
                 ->hook_up_origin (_origin);
             }
+          else
+            {
+              throw std::runtime_error ("failed to parse line: " + _line);
+            }
         }
 
       for (int i = 0; i < _num_of_D;)
@@ -256,6 +260,10 @@ MNM_IO::build_od_factory (const std::string &file_folder,
               ((MNM_DMDND *) node_factory->get_node (_node_ID))
                 ->hook_up_destination (_dest);
             }
+          else
+            {
+              throw std::runtime_error ("failed to parse line: " + _line);
+            }
         }
     }
   _od_file.close ();
@@ -309,6 +317,10 @@ MNM_IO::hook_up_od_node (const std::string &file_folder,
               ((MNM_DMOND *) node_factory->get_node (_node_ID))
                 ->hook_up_origin (_origin);
             }
+          else
+            {
+              throw std::runtime_error ("failed to parse line: " + _line);
+            }
         }
 
       for (int i = 0; i < _num_of_D;)
@@ -334,6 +346,10 @@ MNM_IO::hook_up_od_node (const std::string &file_folder,
               ((MNM_DMDND *) node_factory->get_node (_node_ID))
                 ->hook_up_destination (_dest);
             }
+          else
+            {
+              throw std::runtime_error ("failed to parse line: " + _line);
+            }
         }
     }
   _od_file.close ();
@@ -382,6 +398,10 @@ MNM_IO::build_od_factory (const std::string &file_folder,
               od_factory->make_origin (_origin_ID, _max_interval, _flow_scalar,
                                        _frequency);
             }
+          else
+            {
+              throw std::runtime_error ("failed to parse line: " + _line);
+            }
         }
 
       for (int i = 0; i < _num_of_D;)
@@ -401,6 +421,10 @@ MNM_IO::build_od_factory (const std::string &file_folder,
               _node_ID = TInt (std::stoi (_words[1]));
               od_factory->make_destination (_dest_ID);
             }
+          else
+            {
+              throw std::runtime_error ("failed to parse line: " + _line);
+            }
         }
     }
   _od_file.close ();
@@ -454,6 +478,10 @@ MNM_IO::read_origin_vehicle_label_ratio (const std::string &file_folder,
                     TFlt (std::stof (_words[1 + j])));
                 }
             }
+          else
+            {
+              throw std::runtime_error ("failed to parse line: " + _line);
+            }
         }
     }
   else
@@ -588,6 +616,10 @@ MNM_IO::build_graph (const std::string &file_folder,
             }
           _graph.add_link (_from_ID, _to_ID, _link_ID);
         }
+      else
+        {
+          throw std::runtime_error ("failed to parse line: " + _line);
+        }
     }
   assert ((std::ptrdiff_t) _graph.size_links () == _num_of_link);
   return _graph;
@@ -946,6 +978,10 @@ MNM_IO::load_path_table (const std::string &file_name,
                 ->second->find (_dest_node_ID)
                 ->second->m_path_vec.push_back (_path);
             }
+          else
+            {
+              throw std::runtime_error ("failed to parse line: " + _line);
+            }
         }
       _path_table_file.close ();
       if (w_buffer)
diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 0cec511..6a33e5b 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -4043,6 +4043,10 @@ MNM_IO_Multiclass::read_origin_car_label_ratio (const std::string &file_folder,
                     TFlt (std::stof (_words[1 + j])));
                 }
             }
+          else
+            {
+              throw std::runtime_error ("failed to parse line: " + _line);
+            }
         }
     }
   else
@@ -4100,6 +4104,10 @@ MNM_IO_Multiclass::read_origin_truck_label_ratio (
                     TFlt (std::stof (_words[1 + j])));
                 }
             }
+          else
+            {
+              throw std::runtime_error ("failed to parse line: " + _line);
+            }
         }
     }
   else
-- 
2.43.0


From 975e3a575f76a4f2eebed8a04785abab3a33f4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:25 +0000
Subject: [PATCH 27/50] fix: reject paths whose successive nodes are not
 connected

The path was given the link found for the previous pair of nodes (or an
uninitialized one).
---
 src/io.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/io.cpp b/src/io.cpp
index ef27dff..fdcb213 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -949,6 +949,7 @@ MNM_IO::load_path_table (const std::string &file_name,
                 {
                   _from_ID = _path->m_node_vec[j];
                   _to_ID = _path->m_node_vec[j + 1];
+                  bool _found = false;
                   for (auto &&c : graph.connections (graph.get_node (_from_ID),
                                                      Direction::Outgoing))
                     {
@@ -956,9 +957,15 @@ MNM_IO::load_path_table (const std::string &file_name,
                           == _to_ID)
                         {
                           _link_ID = graph.get_id (c);
+                          _found = true;
                           break;
                         }
                     };
+                  if (!_found)
+                    {
+                      throw std::runtime_error (
+                        "no link between successive nodes of path: " + _line);
+                    }
                   _path->m_link_vec.push_back (_link_ID);
                 }
 
-- 
2.43.0


From a13d6d9b9e1836f716a49a2e2474cd641ffc3a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:35 +0000
Subject: [PATCH 28/50] fix: report a missing demand file instead of loading no
 demand

---
 src/io.cpp         | 4 ++++
 src/multiclass.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/io.cpp b/src/io.cpp
index fdcb213..705f456 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -683,6 +683,10 @@ MNM_IO::build_demand (const std::string &file_folder,
       delete[] _demand_vector;
       _demand_file.close ();
     }
+  else if (_num_OD > 0)
+    {
+      throw std::runtime_error ("failed to open file: " + _demand_file_name);
+    }
   return 0;
 }
 
diff --git a/src/multiclass.cpp b/src/multiclass.cpp
index 6a33e5b..464f996 100644
--- a/src/multiclass.cpp
+++ b/src/multiclass.cpp
@@ -3909,6 +3909,10 @@ MNM_IO_Multiclass::build_demand_multiclass (const std::string &file_folder,
       delete[] _demand_vector_truck;
       _demand_file.close ();
     }
+  else if (_num_OD > 0)
+    {
+      throw std::runtime_error ("failed to open file: " + _demand_file_name);
+    }
   return 0;
 }
 
-- 
2.43.0


From 761826af1842b07dd2d415df754b4ce098bb35fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:50 +0000
Subject: [PATCH 29/50] fix: report path table buffers with too few columns

The shares were read past the end of the row.
---
 src/path.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/path.cpp b/src/path.cpp
index b7c6a82..1e40785 100644
--- a/src/path.cpp
+++ b/src/path.cpp
@@ -889,7 +889,12 @@ copy_buffer_to_p (Path_Table *path_table, TInt col)
         {
           for (MNM_Path *_path : _it_it.second->m_path_vec)
             {
-              IAssert (_path->m_buffer_length > col);
+              if (col >= _path->m_buffer_length)
+                {
+                  throw std::runtime_error (
+                    "the buffer of path " + std::to_string (_path->m_path_ID)
+                    + " has no column " + std::to_string (col));
+                }
               _path->m_p = _path->m_buffer[col];
             }
         }
-- 
2.43.0


From 2df850d33ab1939d19975de6f621e528c8552999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:54 +0000
Subject: [PATCH 30/50] fix: route adaptive vehicles whenever there are
 time-dependent adaptive shares

With an overall share of zero the adaptive part of the hybrid routing was
switched off although the time-dependent shares made adaptive vehicles, and
purely fixed or adaptive routing released vehicles it does not route: they had
no next link and the loading crashed.
---
 src/dta.cpp     |  4 +++-
 src/routing.cpp | 16 ++++++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/dta.cpp b/src/dta.cpp
index 0a7078c..f46b415 100644
--- a/src/dta.cpp
+++ b/src/dta.cpp
@@ -334,7 +334,9 @@ MNM_Dta::build_from_files ()
                                            m_od_factory);
   MNM_IO::build_link_toll (m_file_folder, m_config, m_link_factory);
   MNM_IO::build_link_td_attribute(m_file_folder, m_link_factory);
-  MNM_IO::build_td_adaptive_ratio(m_file_folder, m_config, m_od_factory);
+  // only hybrid routing guides both adaptive and fixed-route vehicles
+  if (m_config->get_string ("routing_type") == "Hybrid")
+    MNM_IO::build_td_adaptive_ratio (m_file_folder, m_config, m_od_factory);
   build_workzone ();
   set_statistics ();
   set_gridlock_recorder ();
diff --git a/src/routing.cpp b/src/routing.cpp
index 1188a25..9bc8f4c 100644
--- a/src/routing.cpp
+++ b/src/routing.cpp
@@ -1,4 +1,5 @@
 #include "routing.h"
+#include "multiclass.h"
 
 using macposts::graph::Direction;
 
@@ -670,6 +671,12 @@ MNM_Routing_Hybrid::MNM_Routing_Hybrid (const std::string &file_folder,
   auto *_tmp_config = new MNM_ConfReader (file_folder + "/config.conf", "DTA");
   m_routing_adaptive->m_working = _tmp_config->get_float ("adaptive_ratio") > 0;
   delete _tmp_config;
+  // the time-dependent shares take precedence over the overall one
+  for (const auto &_it : od_factory->m_origin_map)
+    {
+      if (!_it.second->m_adaptive_ratio.empty ())
+        m_routing_adaptive->m_working = true;
+    }
 }
 
 MNM_Routing_Hybrid::~MNM_Routing_Hybrid ()
@@ -730,6 +737,15 @@ MNM_Routing_Biclass_Hybrid::MNM_Routing_Biclass_Hybrid (
     = _tmp_config->get_float ("adaptive_ratio_car") > 0
       || _tmp_config->get_float ("adaptive_ratio_truck") > 0;
   delete _tmp_config;
+  // the time-dependent shares take precedence over the overall ones
+  for (const auto &_it : od_factory->m_origin_map)
+    {
+      auto *_origin = dynamic_cast<MNM_Origin_Multiclass *> (_it.second);
+      if (_origin != nullptr
+          && (!_origin->m_adaptive_ratio_car.empty ()
+              || !_origin->m_adaptive_ratio_truck.empty ()))
+        m_routing_adaptive->m_working = true;
+    }
 }
 
 MNM_Routing_Biclass_Hybrid::~MNM_Routing_Biclass_Hybrid ()
-- 
2.43.0


From e0435d9f38a77d1a9659402e375cf3bb8ef4bfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:57 +0000
Subject: [PATCH 31/50] fix: generate covering paths for links at origins and
 destinations

A link that starts at an origin or ends at a destination has an empty shortest
path tree on that side, whose end() was dereferenced. The origin and the
destination also have to be the ends of the link then. generate_paths_to_cover_links
used the end points of a registered link instead of the given one.
---
 macposts/_ext/dta.cpp   | 14 ++++++--------
 macposts/_ext/mcdta.cpp | 30 +++++++++++++-----------------
 macposts/_ext/utils.h   | 12 ++++++++++++
 3 files changed, 31 insertions(+), 25 deletions(-)

diff --git a/macposts/_ext/dta.cpp b/macposts/_ext/dta.cpp
index 391316c..a2e803a 100644
--- a/macposts/_ext/dta.cpp
+++ b/macposts/_ext/dta.cpp
@@ -1491,14 +1491,12 @@ Dta::generate_paths_to_cover_registered_links ()
               for (auto _it_it : pair_ptrs_2)
                 {
                   _dest = _it_it.first;
-                  if (_shortest_path_tree
-                          .find (_origin->m_origin_node->m_node_ID)
-                          ->second
-                        != -1
-                      && _shortest_path_tree_reversed
-                             .find (_dest->m_dest_node->m_node_ID)
-                             ->second
-                           != -1)
+                  if (utils::is_connected (_shortest_path_tree,
+                                           _origin->m_origin_node->m_node_ID,
+                                           _from_node_ID)
+                      && utils::is_connected (_shortest_path_tree_reversed,
+                                              _dest->m_dest_node->m_node_ID,
+                                              _to_node_ID))
                     {
                       _flg = true;
                       break;
diff --git a/macposts/_ext/mcdta.cpp b/macposts/_ext/mcdta.cpp
index f6af64a..2a11ce0 100644
--- a/macposts/_ext/mcdta.cpp
+++ b/macposts/_ext/mcdta.cpp
@@ -2595,14 +2595,12 @@ Mcdta::generate_paths_to_cover_registered_links ()
                 {
                   _dest
                     = dynamic_cast<MNM_Destination_Multiclass *> (_it_it.first);
-                  if (_shortest_path_tree
-                          .find (_origin->m_origin_node->m_node_ID)
-                          ->second
-                        != -1
-                      && _shortest_path_tree_reversed
-                             .find (_dest->m_dest_node->m_node_ID)
-                             ->second
-                           != -1)
+                  if (utils::is_connected (_shortest_path_tree,
+                                           _origin->m_origin_node->m_node_ID,
+                                           _from_node_ID)
+                      && utils::is_connected (_shortest_path_tree_reversed,
+                                              _dest->m_dest_node->m_node_ID,
+                                              _to_node_ID))
                     {
                       _flg = true;
                       break;
@@ -2759,7 +2757,7 @@ Mcdta::generate_paths_to_cover_links (py::array_t<int> links, int max_iter)
   for (int i = 0; i < num_links; ++i)
     {
       // generate new path including this link
-      auto &&sd = m_mcdta->m_graph.get_endpoints (m_link_vec[i]->m_link_ID);
+      auto &&sd = m_mcdta->m_graph.get_endpoints (links_ptr[i]);
       _from_node_ID = m_mcdta->m_graph.get_id (sd.first);
       _to_node_ID = m_mcdta->m_graph.get_id (sd.second);
 
@@ -2832,14 +2830,12 @@ Mcdta::generate_paths_to_cover_links (py::array_t<int> links, int max_iter)
                 {
                   _dest
                     = dynamic_cast<MNM_Destination_Multiclass *> (_it_it.first);
-                  if (_shortest_path_tree
-                          .find (_origin->m_origin_node->m_node_ID)
-                          ->second
-                        != -1
-                      && _shortest_path_tree_reversed
-                             .find (_dest->m_dest_node->m_node_ID)
-                             ->second
-                           != -1)
+                  if (utils::is_connected (_shortest_path_tree,
+                                           _origin->m_origin_node->m_node_ID,
+                                           _from_node_ID)
+                      && utils::is_connected (_shortest_path_tree_reversed,
+                                              _dest->m_dest_node->m_node_ID,
+                                              _to_node_ID))
                     {
                       _flg = true;
                       break;
diff --git a/macposts/_ext/utils.h b/macposts/_ext/utils.h
index b45ddc4..14542b7 100644
--- a/macposts/_ext/utils.h
+++ b/macposts/_ext/utils.h
@@ -3,6 +3,7 @@
 
 #include <algorithm>
 #include <random>
+#include <unordered_map>
 
 namespace MNM_Ults
 {
@@ -38,5 +39,16 @@ random_shuffle (RandomIt first, RandomIt last, RandomGen &&rng)
 {
   std::shuffle (first, last, rng);
 }
+
+// Whether 'tree' (node -> next link, -1 if there is none) leads from 'node' to
+// its 'root'. The tree may be empty if nothing but the root itself counts.
+inline bool
+is_connected (const std::unordered_map<int, int> &tree, int node, int root)
+{
+  if (node == root)
+    return true;
+  auto it = tree.find (node);
+  return it != tree.end () && it->second != -1;
+}
 }
 }
-- 
2.43.0


From 8cf1072ab562f2aa7c9d4fe1ed27dcad2764a127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:49 +0000
Subject: [PATCH 32/50] fix: take the number of minutes per interval from the
 configuration for bus, park-and-ride and passenger demand

The origins copied 15 values per assignment interval whatever its length:
other settings read and wrote out of bounds or lost demand.
---
 src/multimodal.cpp | 30 ++++++++++++++++++------------
 src/multimodal.h   |  7 ++++---
 2 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 05a39b2..88e4348 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -2607,12 +2607,13 @@ MNM_Origin_Multimodal::evolve (TInt timestamp)
 
 int
 MNM_Origin_Multimodal::add_dest_demand_bus (MNM_Destination_Multimodal *dest,
-                                            TInt routeID, TFlt *demand_bus)
+                                            TInt routeID, TFlt *demand_bus,
+                                            TInt num_of_minute)
 {
   // split (15-mins demand) to (15 * 1-minute demand)
   // bus demand
-  double *_demand_bus = new double[m_max_assign_interval * 15]();
-  for (int i = 0; i < m_max_assign_interval * 15; ++i)
+  double *_demand_bus = new double[m_max_assign_interval * num_of_minute]();
+  for (int i = 0; i < m_max_assign_interval * num_of_minute; ++i)
     {
       _demand_bus[i] = TFlt (demand_bus[i]);
     }
@@ -2632,11 +2633,11 @@ MNM_Origin_Multimodal::add_dest_demand_bus (MNM_Destination_Multimodal *dest,
 
 int
 MNM_Origin_Multimodal::add_dest_demand_pnr_car (
-  MNM_Destination_Multimodal *dest, TFlt *demand_pnr_car)
+  MNM_Destination_Multimodal *dest, TFlt *demand_pnr_car, TInt num_of_minute)
 {
   // split (15-mins demand) to (15 * 1-minute demand)
-  double *_demand_pnr_car = new double[m_max_assign_interval * 15]();
-  for (int i = 0; i < m_max_assign_interval * 15; ++i)
+  double *_demand_pnr_car = new double[m_max_assign_interval * num_of_minute]();
+  for (int i = 0; i < m_max_assign_interval * num_of_minute; ++i)
     {
       _demand_pnr_car[i] = TFlt (demand_pnr_car[i]);
     }
@@ -2646,11 +2647,13 @@ MNM_Origin_Multimodal::add_dest_demand_pnr_car (
 
 int
 MNM_Origin_Multimodal::add_dest_demand_passenger_bus (
-  MNM_Destination_Multimodal *dest, TFlt *demand_passenger_bus)
+  MNM_Destination_Multimodal *dest, TFlt *demand_passenger_bus,
+  TInt num_of_minute)
 {
   // split (15-mins demand) to (15 * 1-minute demand)
-  double *_demand_passenger_bus = new double[m_max_assign_interval * 15]();
-  for (int i = 0; i < m_max_assign_interval * 15; ++i)
+  double *_demand_passenger_bus
+    = new double[m_max_assign_interval * num_of_minute]();
+  for (int i = 0; i < m_max_assign_interval * num_of_minute; ++i)
     {
       _demand_passenger_bus[i] = TFlt (demand_passenger_bus[i]);
     }
@@ -8708,7 +8711,8 @@ MNM_IO_Multimodal::build_vehicle_demand_multimodal (
               _dest = dynamic_cast<MNM_Destination_Multimodal *> (
                 od_factory->get_destination (_dest_ID));
               _origin->add_dest_demand_bus (_dest, _route_ID,
-                                            _demand_vector_bus);
+                                            _demand_vector_bus,
+                                            _num_of_minute);
             }
           else
             {
@@ -8817,7 +8821,8 @@ MNM_IO_Multimodal::build_pnr_demand (const std::string &file_folder,
                 od_factory->get_origin (_origin_ID));
               _dest = dynamic_cast<MNM_Destination_Multimodal *> (
                 od_factory->get_destination (_dest_ID));
-              _origin->add_dest_demand_pnr_car (_dest, _demand_vector);
+              _origin->add_dest_demand_pnr_car (_dest, _demand_vector,
+                                                _num_of_minute);
             }
           else
             {
@@ -8929,7 +8934,8 @@ MNM_IO_Multimodal::build_bustransit_demand (const std::string &file_folder,
                 od_factory->get_origin (_origin_ID));
               _dest = dynamic_cast<MNM_Destination_Multimodal *> (
                 od_factory->get_destination (_dest_ID));
-              _origin->add_dest_demand_passenger_bus (_dest, _demand_vector);
+              _origin->add_dest_demand_passenger_bus (_dest, _demand_vector,
+                                                      _num_of_minute);
             }
           else
             {
diff --git a/src/multimodal.h b/src/multimodal.h
index f04bf82..8c5d50f 100644
--- a/src/multimodal.h
+++ b/src/multimodal.h
@@ -421,13 +421,14 @@ public:
                                       TFlt adaptive_ratio);
 
   int add_dest_demand_bus (MNM_Destination_Multimodal *dest, TInt routeID,
-                           TFlt *demand_bus);
+                           TFlt *demand_bus, TInt num_of_minute);
 
   int add_dest_demand_pnr_car (MNM_Destination_Multimodal *dest,
-                               TFlt *demand_pnr_car);
+                               TFlt *demand_pnr_car, TInt num_of_minute);
 
   int add_dest_demand_passenger_bus (MNM_Destination_Multimodal *dest,
-                                     TFlt *demand_passenger_bus);
+                                     TFlt *demand_passenger_bus,
+                                     TInt num_of_minute);
 
   // <Destination node, <routeID, time-varying demand>>
   std::unordered_map<MNM_Destination_Multimodal *,
-- 
2.43.0


From 742a8cc836069f04bdbe207d54d5b370e2e3af5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:49 +0000
Subject: [PATCH 33/50] fix: initialise the waiting time of passengers

It is read when a passenger enters its first walking link; garbage kept
passengers at their origin for an arbitrary time.
---
 src/multimodal.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 88e4348..5b41f6e 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -1682,6 +1682,7 @@ MNM_Passenger::MNM_Passenger (TInt ID, TInt start_time, TInt passenger_type)
 {
   m_passenger_ID = ID;
   m_passenger_type = passenger_type;
+  m_waiting_time = 0;
   m_pnr = false;
   m_current_link = nullptr;
   m_next_link = nullptr;
-- 
2.43.0


From 40fcc5e306f59c13f26b23c9b9e6eea1ae12c40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:49 +0000
Subject: [PATCH 34/50] fix: do not read a passenger after deleting it

---
 src/multimodal.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 5b41f6e..23a83a8 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -1846,11 +1846,6 @@ MNM_Passenger_Factory::remove_finished_passenger (MNM_Passenger *passenger,
   IAssert (passenger->m_finish_time > passenger->m_start_time);
   m_total_time_passenger
     += (passenger->m_finish_time - passenger->m_start_time);
-  if (del)
-    {
-      delete passenger;
-    }
-
   m_finished_passenger += 1;
   m_enroute_passenger -= 1;
   if (passenger->m_pnr)
@@ -1858,6 +1853,10 @@ MNM_Passenger_Factory::remove_finished_passenger (MNM_Passenger *passenger,
       m_finished_passenger_pnr += 1;
       m_enroute_passenger_pnr -= 1;
     }
+  if (del)
+    {
+      delete passenger;
+    }
   IAssert (m_num_passenger >= m_num_passenger_pnr);
   IAssert (m_num_passenger == m_finished_passenger + m_enroute_passenger);
   IAssert (m_num_passenger_pnr
-- 
2.43.0


From d5926170fa68e0dde7afb222257a56d667f09d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:49 +0000
Subject: [PATCH 35/50] fix: move the cells of a multimodal link from the last
 one to the first

With a bus held at a stop, a vehicle that had just entered the cell could
take its place and cross two cells in one step.
---
 src/multimodal.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 23a83a8..97b95cf 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -4653,10 +4653,15 @@ MNM_Dlink_Ctm_Multimodal::evolve (TInt timestamp)
   update_out_veh ();
 
   TInt _num_veh_tomove_car, _num_veh_tomove_truck;
+  // from the last cell to the first one: a vehicle that just entered a cell
+  // must not take the place of a bus held there and leave it at once
+  /* last cell */
+  move_veh_queue_in_last_cell (timestamp);
+
   /* previous cells */
   if (m_num_cells > 1)
     {
-      for (int i = 0; i < m_num_cells - 1; ++i)
+      for (int i = m_num_cells - 2; i >= 0; --i)
         {
           // Car
           _num_veh_tomove_car = m_cell_array[i]->m_out_veh_car;
@@ -4671,8 +4676,6 @@ MNM_Dlink_Ctm_Multimodal::evolve (TInt timestamp)
         }
     }
 
-  /* last cell */
-  move_veh_queue_in_last_cell (timestamp);
   m_tot_wait_time_at_intersection
     += TFlt (m_finished_array.size ()) / m_flow_scalar * m_unit_time;
 
-- 
2.43.0


From 86e454099e12da8ae327a9581eba6a043b7a184f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:08 +0000
Subject: [PATCH 36/50] fix: count the vehicles on a multimodal point-queue
 link in its volume

The volumes of cars and trucks were summed over m_veh_pool, which this link
model does not use; the vehicles on the link are in m_veh_queue.
---
 src/multimodal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 97b95cf..38a885d 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -3940,7 +3940,7 @@ MNM_Dlink_Pq_Multimodal::clear_incoming_array (TInt timestamp)
 
   m_volume_car = 0;
   m_volume_truck = 0;
-  for (auto _veh_it : m_veh_pool)
+  for (auto _veh_it : m_veh_queue)
     {
       auto *_veh_multimodal
         = dynamic_cast<MNM_Veh_Multimodal *> (_veh_it.first);
-- 
2.43.0


From 8850ff1ee2e02b9909c09df072fae20ad891b22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:08 +0000
Subject: [PATCH 37/50] fix: keep passengers of a transit link and their demand
 in a fixed order

Containers keyed by the address of a passenger or a destination were iterated
over, so who finishes walking (and boards) first depended on the memory layout
and the same input and seed gave different loadings.
---
 src/multimodal.cpp | 9 +++++----
 src/multimodal.h   | 4 ++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 38a885d..345c26d 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -2512,7 +2512,8 @@ MNM_Origin_Multimodal::MNM_Origin_Multimodal (TInt ID, TInt max_interval,
   m_demand_pnr_car = std::unordered_map<MNM_Destination_Multimodal *, TFlt *,
                                         MNM_Destination_Hash> ();
   m_demand_passenger_bus
-    = std::unordered_map<MNM_Destination_Multimodal *, TFlt *> ();
+    = std::unordered_map<MNM_Destination_Multimodal *, TFlt *,
+                         MNM_Destination_Hash> ();
   m_walking_out_links_vec = std::vector<MNM_Walking_Link *> ();
   m_in_passenger_queue = std::deque<MNM_Passenger *> ();
   m_pickup_waiting_time = pickup_waiting_time;
@@ -3322,7 +3323,7 @@ MNM_Transit_Link::MNM_Transit_Link (TInt link_ID,
   m_fftt = TFlt (-1); // seconds
   m_unit_time = unit_time;
 
-  m_passenger_queue = std::unordered_map<MNM_Passenger *, TInt> ();
+  m_passenger_queue = std::deque<std::pair<MNM_Passenger *, TInt>> ();
   m_finished_array = std::deque<MNM_Passenger *> ();
   m_incoming_array = std::deque<MNM_Passenger *> ();
 
@@ -3627,7 +3628,7 @@ MNM_Bus_Link::clear_incoming_array (TInt timestamp)
       _passenger = *_passenger_it;
       IAssert (_passenger->get_current_link ()->m_link_ID == m_link_ID);
       _passenger->m_waiting_time = 0;
-      m_passenger_queue.insert (
+      m_passenger_queue.push_back (
         std::pair<MNM_Passenger *, TInt> (_passenger, TInt (0)));
       _passenger_it = m_incoming_array.erase (_passenger_it);
     }
@@ -3695,7 +3696,7 @@ MNM_Walking_Link::clear_incoming_array (TInt timestamp)
       if (_passenger->m_waiting_time <= 0)
         {
           _passenger->m_waiting_time = 0;
-          m_passenger_queue.insert (
+          m_passenger_queue.push_back (
             std::pair<MNM_Passenger *, TInt> (_passenger, TInt (0)));
           _passenger_it = m_incoming_array.erase (_passenger_it);
         }
diff --git a/src/multimodal.h b/src/multimodal.h
index 8c5d50f..f8d8c02 100644
--- a/src/multimodal.h
+++ b/src/multimodal.h
@@ -438,7 +438,7 @@ public:
   std::unordered_map<MNM_Destination_Multimodal *, TFlt *, MNM_Destination_Hash>
     m_demand_pnr_car;
   // <Destination node, time-varying demand>
-  std::unordered_map<MNM_Destination_Multimodal *, TFlt *>
+  std::unordered_map<MNM_Destination_Multimodal *, TFlt *, MNM_Destination_Hash>
     m_demand_passenger_bus;
 
   std::deque<MNM_Passenger *> m_in_passenger_queue;
@@ -529,7 +529,7 @@ public:
 
   std::deque<MNM_Passenger *> m_incoming_array;
   // <passenger, time left to be moved to finished queue>
-  std::unordered_map<MNM_Passenger *, TInt> m_passenger_queue;
+  std::deque<std::pair<MNM_Passenger *, TInt>> m_passenger_queue;
   std::deque<MNM_Passenger *> m_finished_array;
 
   // recording passengers dar
-- 
2.43.0


From ea9aa1185de1d26c2b3817295de07e0893f0dff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:06 +0000
Subject: [PATCH 38/50] fix: add the time of unfinished trucks to the trucks'
 total in Mmdta.get_travel_stats

---
 macposts/_ext/mmdta.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/macposts/_ext/mmdta.cpp b/macposts/_ext/mmdta.cpp
index 2e53844..ecf2e84 100644
--- a/macposts/_ext/mmdta.cpp
+++ b/macposts/_ext/mmdta.cpp
@@ -1731,13 +1731,15 @@ Mmdta::get_travel_stats ()
           if (_veh->m_bus_route_ID == TInt (-1))
             {
               _count_truck += 1;
+              _tot_tt_truck += (_end_time - _veh->m_start_time)
+                               * m_mmdta->m_unit_time / 3600.0;
             }
           else
             {
               _count_bus += 1;
+              _tot_tt_bus += (_end_time - _veh->m_start_time)
+                             * m_mmdta->m_unit_time / 3600.0;
             }
-          _tot_tt_bus
-            += (_end_time - _veh->m_start_time) * m_mmdta->m_unit_time / 3600.0;
         }
     }
 
-- 
2.43.0


From 67a7565fb80cfd2339901e2b9bb5b4fc823b5a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:06 +0000
Subject: [PATCH 39/50] fix: compare multimodal path travel times with their
 cap in seconds

---
 macposts/_ext/mmdta.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macposts/_ext/mmdta.cpp b/macposts/_ext/mmdta.cpp
index ecf2e84..a5059e8 100644
--- a/macposts/_ext/mmdta.cpp
+++ b/macposts/_ext/mmdta.cpp
@@ -4419,7 +4419,7 @@ Mmdta::get_path_tt_car (py::array_t<int> link_IDs,
                                          m_mmdta->m_unit_time,
                                          m_mmdta->m_current_loading_interval)
                   * m_mmdta->m_unit_time;
-              if (_tmp * m_mmdta->m_unit_time
+              if (_tmp
                   > TT_UPPER_BOUND * (_mclink->m_length / _mclink->m_ffs_car))
                 {
                   _tmp
@@ -4479,7 +4479,7 @@ Mmdta::get_path_tt_truck (py::array_t<int> link_IDs,
                                            m_mmdta->m_unit_time,
                                            m_mmdta->m_current_loading_interval)
                   * m_mmdta->m_unit_time;
-              if (_tmp * m_mmdta->m_unit_time
+              if (_tmp
                   > TT_UPPER_BOUND * (_mclink->m_length / _mclink->m_ffs_truck))
                 {
                   _tmp
-- 
2.43.0


From 249f0383532fe78be9e0a86273d5002226e20994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:06 +0000
Subject: [PATCH 40/50] fix: read link IDs and intervals as integers in the
 per-link queue functions of Mmdta

---
 macposts/_ext/mmdta.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/macposts/_ext/mmdta.cpp b/macposts/_ext/mmdta.cpp
index a5059e8..bc448d1 100644
--- a/macposts/_ext/mmdta.cpp
+++ b/macposts/_ext/mmdta.cpp
@@ -6767,8 +6767,8 @@ Mmdta::get_queue_veh_each_link (py::array_t<int> useful_links,
   auto result = py::array_t<double> (new_shape);
   auto result_buf = result.request ();
   double *result_ptr = (double *) result_buf.ptr;
-  double *intervals_ptr = (double *) intervals_buf.ptr;
-  double *links_ptr = (double *) links_buf.ptr;
+  int *intervals_ptr = (int *) intervals_buf.ptr;
+  int *links_ptr = (int *) links_buf.ptr;
 
   for (int t = 0; t < num_intervals; ++t)
     {
@@ -6819,8 +6819,8 @@ Mmdta::get_queue_passenger_each_link (py::array_t<int> useful_links,
   auto result = py::array_t<double> (new_shape);
   auto result_buf = result.request ();
   double *result_ptr = (double *) result_buf.ptr;
-  double *intervals_ptr = (double *) intervals_buf.ptr;
-  double *links_ptr = (double *) links_buf.ptr;
+  int *intervals_ptr = (int *) intervals_buf.ptr;
+  int *links_ptr = (int *) links_buf.ptr;
 
   for (int t = 0; t < num_intervals; ++t)
     {
-- 
2.43.0


From 89ede3cceeb5d72a1f64966999f8f00a6fbf9139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:12 +0000
Subject: [PATCH 41/50] fix: free the cost maps of the multimodal equilibrium
 as arrays

---
 src/multimodal.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index 345c26d..a4dc326 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -15126,73 +15126,73 @@ MNM_MM_Due::~MNM_MM_Due ()
 
   for (auto _tt_it : m_link_tt_map)
     {
-      delete _tt_it.second;
+      delete[] _tt_it.second;
     }
   m_link_tt_map.clear ();
 
   for (auto _tt_it : m_link_tt_map_truck)
     {
-      delete _tt_it.second;
+      delete[] _tt_it.second;
     }
   m_link_tt_map_truck.clear ();
 
   for (auto _tt_it : m_transitlink_tt_map)
     {
-      delete _tt_it.second;
+      delete[] _tt_it.second;
     }
   m_transitlink_tt_map.clear ();
 
   for (auto _cost_it : m_link_cost_map)
     {
-      delete _cost_it.second;
+      delete[] _cost_it.second;
     }
   m_link_cost_map.clear ();
 
   for (auto _cost_it : m_link_cost_map_truck)
     {
-      delete _cost_it.second;
+      delete[] _cost_it.second;
     }
   m_link_cost_map_truck.clear ();
 
   for (auto _cost_it : m_transitlink_cost_map)
     {
-      delete _cost_it.second;
+      delete[] _cost_it.second;
     }
   m_transitlink_cost_map.clear ();
 
   for (auto _it : m_link_congested_car)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_link_congested_car.clear ();
 
   for (auto _it : m_link_congested_truck)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_link_congested_truck.clear ();
 
   for (auto _it : m_transitlink_congested_passenger)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_transitlink_congested_passenger.clear ();
 
   for (auto _it : m_queue_dissipated_time_car)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_queue_dissipated_time_car.clear ();
 
   for (auto _it : m_queue_dissipated_time_truck)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_queue_dissipated_time_truck.clear ();
 
   for (auto _it : m_queue_dissipated_time_passenger)
     {
-      delete _it.second;
+      delete[] _it.second;
     }
   m_queue_dissipated_time_passenger.clear ();
 
-- 
2.43.0


From c36810ff615216a7e60abb0caebba560089e1a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:02 +0000
Subject: [PATCH 42/50] fix: round the query time of multimodal bus travel
 times to whole intervals

---
 src/multimodal.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/multimodal.cpp b/src/multimodal.cpp
index a4dc326..c4161a4 100644
--- a/src/multimodal.cpp
+++ b/src/multimodal.cpp
@@ -11041,6 +11041,9 @@ get_travel_time_bus (MNM_Bus_Link *link, TFlt start_time, TFlt unit_interval,
                                 "m_N_in_bus cumulative curve is not installed");
     }
 
+  // buses come at whole intervals, as in get_bus_waiting_time ()
+  start_time = TFlt (round (start_time));
+
   TFlt _wait_time
     = get_bus_waiting_time (link->m_from_busstop, start_time, unit_interval,
                             end_loading_timestamp, return_inf);
-- 
2.43.0


From 0f7425fcea379d44fb16a77dcc7ff1424fb12371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:02 +0000
Subject: [PATCH 43/50] fix: answer -1 for unconnected nodes in Mmdta node
 sequences

---
 macposts/_ext/mmdta.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/macposts/_ext/mmdta.cpp b/macposts/_ext/mmdta.cpp
index bc448d1..6532c98 100644
--- a/macposts/_ext/mmdta.cpp
+++ b/macposts/_ext/mmdta.cpp
@@ -3553,6 +3553,7 @@ Mmdta::node_seq_to_link_seq_driving (py::array_t<int> node_IDs)
 
   for (int i = 0; i < m - 1; ++i)
     {
+      result_ptr[i] = -1;
       for (const auto &l :
            m_mmdta->m_graph.connections (nodes_ptr[i], Direction::Outgoing))
         {
@@ -3601,6 +3602,7 @@ Mmdta::node_seq_to_link_seq_bustransit (py::array_t<int> node_IDs)
 
   for (int i = 0; i < m - 1; ++i)
     {
+      result_ptr[i] = -1;
       for (const auto &l :
            m_mmdta->m_bus_transit_graph.connections (nodes_ptr[i],
                                                      Direction::Outgoing))
-- 
2.43.0


From 4e71678093eb05489209b08631c99c1117831ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:03 +0000
Subject: [PATCH 44/50] fix: shuffle the links into a charging station with the
 seeded generator

---
 src/ev_traffic.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ev_traffic.cpp b/src/ev_traffic.cpp
index 0a9f22f..4eb0217 100644
--- a/src/ev_traffic.cpp
+++ b/src/ev_traffic.cpp
@@ -566,8 +566,7 @@ MNM_Charging_Station::evolve (TInt timestamp)
     }
 
   // shuffle the in links, reserve the FIFO
-  std::random_device rng; // random sequence
-  std::shuffle (_in_link_ind_array.begin (), _in_link_ind_array.end (), rng);
+  std::random_shuffle (_in_link_ind_array.begin (), _in_link_ind_array.end ());
 
   // move all in_link vehicles to queue, assuming unlimited waiting space
   for (size_t i : _in_link_ind_array)
-- 
2.43.0


From 8329614dc915fc8ca816a95556f570efe5de5c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:03 +0000
Subject: [PATCH 45/50] fix: release tours in input order

---
 src/delivery_traffic.cpp | 2 +-
 src/delivery_traffic.h   | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/delivery_traffic.cpp b/src/delivery_traffic.cpp
index 888993e..d00b3e4 100644
--- a/src/delivery_traffic.cpp
+++ b/src/delivery_traffic.cpp
@@ -212,7 +212,7 @@ MNM_Origin_Delivery::add_multi_OD_seq_demand (
     {
       _demand[i] = TFlt (demand[i]);
     }
-  m_demand_multi_OD_seq.insert (std::make_pair (multi_od_seq, _demand));
+  m_demand_multi_OD_seq.push_back (std::make_pair (multi_od_seq, _demand));
   return 0;
 }
 
diff --git a/src/delivery_traffic.h b/src/delivery_traffic.h
index 0c076a1..fa077db 100644
--- a/src/delivery_traffic.h
+++ b/src/delivery_traffic.h
@@ -68,8 +68,11 @@ public:
                                     TInt assign_interval,
                                     TFlt adaptive_ratio) override;
 
-  std::unordered_map<std::vector<std::pair<MNM_Origin *, MNM_Destination *>> *,
-                     TFlt *>
+  // in the order of the input, so that the release does not depend on where the
+  // sequences happen to be allocated
+  std::vector<
+    std::pair<std::vector<std::pair<MNM_Origin *, MNM_Destination *>> *,
+              TFlt *>>
     m_demand_multi_OD_seq;
   // for delivery vehicles
   TInt m_pickup_waiting_time = 0;
-- 
2.43.0


From a2315c73ec0e7984fe2b785ecb3a8004df04d94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:03 +0000
Subject: [PATCH 46/50] fix: finish a tour at its last leg, not at the last
 leg's destination

---
 src/delivery_traffic.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/delivery_traffic.cpp b/src/delivery_traffic.cpp
index d00b3e4..dad3786 100644
--- a/src/delivery_traffic.cpp
+++ b/src/delivery_traffic.cpp
@@ -336,12 +336,11 @@ MNM_Destination_Delivery::receive (TInt current_interval)
       if (auto _veh_deliver = dynamic_cast<MNM_Veh_Delivery *> (_veh))
         {
           if (_veh_deliver->m_multi_od_seq != nullptr
-              && _veh_deliver->m_multi_od_seq->back ().second
-                   != _veh_deliver->get_current_od ().second)
+              && _veh_deliver->m_current_OD_index
+                   < (std::ptrdiff_t) _veh_deliver->m_multi_od_seq->size () - 1)
             {
               Assert (_veh_deliver->get_current_od ().second == this);
               _veh_deliver->move_to_next_od ();
-              Assert (_veh_deliver->get_current_od ().second != this);
               // delay some time
               _veh_deliver->m_waiting_time
                 = dynamic_cast<MNM_Origin_Delivery *> (_veh_deliver->m_origin)
@@ -391,12 +390,11 @@ MNM_Destination_Delivery::receive (TInt current_interval, MNM_Routing *routing,
       if (auto _veh_deliver = dynamic_cast<MNM_Veh_Delivery *> (_veh))
         {
           if (_veh_deliver->m_multi_od_seq != nullptr
-              && _veh_deliver->m_multi_od_seq->back ().second
-                   != _veh_deliver->get_current_od ().second)
+              && _veh_deliver->m_current_OD_index
+                   < (std::ptrdiff_t) _veh_deliver->m_multi_od_seq->size () - 1)
             {
               Assert (_veh_deliver->get_current_od ().second == this);
               _veh_deliver->move_to_next_od ();
-              Assert (_veh_deliver->get_current_od ().second != this);
               // delay some time
               _veh_deliver->m_waiting_time
                 = dynamic_cast<MNM_Origin_Delivery *> (_veh_deliver->m_origin)
-- 
2.43.0


From 998a692012ed6b15006d99a287eceebe3401f380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:03 +0000
Subject: [PATCH 47/50] fix: do not redraw the routing type of vehicles already
 routed from an origin

---
 src/ev_traffic.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ev_traffic.cpp b/src/ev_traffic.cpp
index 4eb0217..c438308 100644
--- a/src/ev_traffic.cpp
+++ b/src/ev_traffic.cpp
@@ -208,6 +208,10 @@ MNM_Origin_EV::adjust_multi_OD_seq_veh_routing_type (TFlt adaptive_ratio)
       if (auto _veh_elec = dynamic_cast<MNM_Veh_Electrified_Delivery *> (_it))
         {
           Assert (_veh_elec->m_multi_od_seq != nullptr);
+          // already routed from this origin and still waiting to enter the
+          // network, keep the decision
+          if (_veh_elec->m_path != nullptr)
+            continue;
           // std::cout << "EV with multi OD pairs needs charging after first
           // trip: " << _veh_elec -> need_charging() << std::endl;
           if (_veh_elec->need_charging ())
-- 
2.43.0


From 73002aa18e4d5e6a4a08a693a2081aee0ab26e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:03 +0000
Subject: [PATCH 48/50] fix: keep the assigned charging station of electric
 vehicles with one OD pair

---
 src/ev_traffic.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ev_traffic.cpp b/src/ev_traffic.cpp
index c438308..f3c6188 100644
--- a/src/ev_traffic.cpp
+++ b/src/ev_traffic.cpp
@@ -33,6 +33,11 @@ MNM_Veh_Electrified::need_charging ()
           // vehicle with single OD pair just being released
           return true;
         }
+      if (m_charging_station != nullptr)
+        {
+          // on its way to the assigned charging station
+          return true;
+        }
       if (m_current_range - m_miles_traveled_after_charging
           <= 0.1 * m_full_range)
         {
-- 
2.43.0


From 3053c9ce8e7c17ba86786260db33cc6d9cb93091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:03 +0000
Subject: [PATCH 49/50] fix: check the way ahead of a vehicle at its charging
 station towards its destination

---
 src/ev_traffic.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ev_traffic.cpp b/src/ev_traffic.cpp
index f3c6188..85c8656 100644
--- a/src/ev_traffic.cpp
+++ b/src/ev_traffic.cpp
@@ -1329,8 +1329,13 @@ MNM_Routing_Adaptive_With_POIs::update_routing (TInt timestamp)
                         {
                           if (_veh_electrified->need_charging ())
                             {
+                              // once at the charging station, the vehicle
+                              // heads to its destination
                               if (_veh_electrified->m_charging_station
-                                  != nullptr)
+                                    != nullptr
+                                  && _veh_electrified->m_charging_station
+                                         ->m_node_ID
+                                       != _node_ID)
                                 {
                                   if (_veh_electrified->m_charging_station
                                         ->m_node_ID
-- 
2.43.0


From 7b9e7e56d945fd2d6a61ef4d8ae27f63f0a37028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:03 +0000
Subject: [PATCH 50/50] fix: no adaptive vehicles with an adaptive ratio of
 zero in delivery and EV loadings

---
 src/delivery_traffic.cpp | 18 ++++++++++--------
 src/ev_traffic.cpp       | 34 ++++++++++++++++++++--------------
 2 files changed, 30 insertions(+), 22 deletions(-)

diff --git a/src/delivery_traffic.cpp b/src/delivery_traffic.cpp
index dad3786..365e366 100644
--- a/src/delivery_traffic.cpp
+++ b/src/delivery_traffic.cpp
@@ -246,8 +246,9 @@ MNM_Origin_Delivery::release_one_interval (TInt current_interval,
         {
           _label = generate_label (0);
           _veh = _veh_factory_deliver->make_veh (current_interval,
-                                                 MNM_Ults::rand_flt ()
-                                                     <= adaptive_ratio
+                                                 adaptive_ratio > 0
+                                                     && MNM_Ults::rand_flt ()
+                                                          <= adaptive_ratio
                                                    ? MNM_TYPE_ADAPTIVE
                                                    : MNM_TYPE_STATIC);
           _veh->set_destination (_demand_it->first);
@@ -271,12 +272,13 @@ MNM_Origin_Delivery::release_one_interval (TInt current_interval,
       for (int i = 0; i < _veh_to_release; ++i)
         {
           _label = generate_label (0);
-          _veh_deliver
-            = _veh_factory_deliver->make_veh_delivery (current_interval,
-                                                       MNM_Ults::rand_flt ()
-                                                           <= adaptive_ratio
-                                                         ? MNM_TYPE_ADAPTIVE
-                                                         : MNM_TYPE_STATIC);
+          _veh_deliver = _veh_factory_deliver
+                           ->make_veh_delivery (current_interval,
+                                                adaptive_ratio > 0
+                                                    && MNM_Ults::rand_flt ()
+                                                         <= adaptive_ratio
+                                                  ? MNM_TYPE_ADAPTIVE
+                                                  : MNM_TYPE_STATIC);
           _veh_deliver->set_multi_od_seq (_demand_it.first);
           // first destination
           _veh_deliver->set_destination (_demand_it.first->at (0).second);
diff --git a/src/ev_traffic.cpp b/src/ev_traffic.cpp
index 85c8656..9504b29 100644
--- a/src/ev_traffic.cpp
+++ b/src/ev_traffic.cpp
@@ -230,9 +230,10 @@ MNM_Origin_EV::adjust_multi_OD_seq_veh_routing_type (TFlt adaptive_ratio)
               // current origin settings
               // once the veh needs charging, the m_type is changed to adaptive
               // for the remaing OD sequence travel this step can mitigate this
-              _it->m_type = MNM_Ults::rand_flt () <= adaptive_ratio
-                              ? MNM_TYPE_ADAPTIVE
-                              : MNM_TYPE_STATIC;
+              _it->m_type
+                = adaptive_ratio > 0 && MNM_Ults::rand_flt () <= adaptive_ratio
+                    ? MNM_TYPE_ADAPTIVE
+                    : MNM_TYPE_STATIC;
             }
         }
     }
@@ -280,8 +281,9 @@ MNM_Origin_EV::release_one_interval (TInt current_interval,
                   // EV charging at origin or destination
                   _veh = _veh_factory_ev
                            ->make_veh_electrified (current_interval,
-                                                   MNM_Ults::rand_flt ()
-                                                       <= adaptive_ratio
+                                                   adaptive_ratio > 0
+                                                       && MNM_Ults::rand_flt ()
+                                                            <= adaptive_ratio
                                                      ? MNM_TYPE_ADAPTIVE
                                                      : MNM_TYPE_STATIC,
                                                    false);
@@ -291,8 +293,9 @@ MNM_Origin_EV::release_one_interval (TInt current_interval,
             {
               // non-EV
               _veh = _veh_factory_ev->make_veh (current_interval,
-                                                MNM_Ults::rand_flt ()
-                                                    <= adaptive_ratio
+                                                adaptive_ratio > 0
+                                                    && MNM_Ults::rand_flt ()
+                                                         <= adaptive_ratio
                                                   ? MNM_TYPE_ADAPTIVE
                                                   : MNM_TYPE_STATIC);
             }
@@ -335,18 +338,21 @@ MNM_Origin_EV::release_one_interval (TInt current_interval,
             {
               _veh = _veh_factory_ev->make_veh_electrified_delivery (
                 current_interval,
-                MNM_Ults::rand_flt () <= adaptive_ratio ? MNM_TYPE_ADAPTIVE
-                                                        : MNM_TYPE_STATIC,
+                adaptive_ratio > 0 && MNM_Ults::rand_flt () <= adaptive_ratio
+                  ? MNM_TYPE_ADAPTIVE
+                  : MNM_TYPE_STATIC,
                 MNM_Ults::rand_flt () <= m_roadside_charging_ratio);
             }
           else
             {
               // non-EV
-              _veh = _veh_factory_ev->make_veh_delivery (current_interval,
-                                                         MNM_Ults::rand_flt ()
-                                                             <= adaptive_ratio
-                                                           ? MNM_TYPE_ADAPTIVE
-                                                           : MNM_TYPE_STATIC);
+              _veh = _veh_factory_ev
+                       ->make_veh_delivery (current_interval,
+                                            adaptive_ratio > 0
+                                                && MNM_Ults::rand_flt ()
+                                                     <= adaptive_ratio
+                                              ? MNM_TYPE_ADAPTIVE
+                                              : MNM_TYPE_STATIC);
             }
           Assert (dynamic_cast<MNM_Veh_Delivery *> (_veh) != nullptr);
           dynamic_cast<MNM_Veh_Delivery *> (_veh)->set_multi_od_seq (
-- 
2.43.0

