From 7e603000fbcb464a253e823ce15c703d0339718b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:51 +0000
Subject: [PATCH 01/19] fix: Tarjan: a vertex leaves the working set only with
 its component

A finished vertex that still waits on the stack can be reached by a later edge and must lower that vertex's low link.
---
 include/connectivity.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/connectivity.hpp b/include/connectivity.hpp
index a9d0159..a65867b 100644
--- a/include/connectivity.hpp
+++ b/include/connectivity.hpp
@@ -78,9 +78,6 @@ private:
             } // u has been visited
         }
 
-        // Now v has been processed
-        processed[v] = true;
-
         // Handle SCC if found
         if( lowest[v] == num[v] )
         {
@@ -91,12 +88,14 @@ private:
             stack.pop_back();
             while( scc_vertex != v )
             {
+                processed[scc_vertex] = true;
                 scc.push_back( scc_vertex ); // Add to the SCC
                 // Pop the stack
                 scc_vertex = stack.back();
                 stack.pop_back();
             } // unravelling stack
             // Add the last vertex
+            processed[scc_vertex] = true;
             scc.push_back( scc_vertex );
             // Now that we have found the SCC, add it
             // to the SCC list
-- 
2.43.0


From 224ab09b792fa576394642c57a23ba8761231999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:51 +0000
Subject: [PATCH 02/19] fix: reservoir sampling of no or of more than n items

k = 0 left the previous contents in the buffer, k > n wrote past its end and n = 0 read the top of an empty queue.
---
 include/util/math.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/util/math.hpp b/include/util/math.hpp
index 493e6ab..46ab182 100644
--- a/include/util/math.hpp
+++ b/include/util/math.hpp
@@ -65,8 +65,11 @@ template<typename WeightCallbackT>
 void reservoir_sampling_A_ExpJ(
     size_t k, size_t n, WeightCallbackT weight, std::vector<std::size_t> & buffer, std::mt19937 & mt )
 {
-    if( k == 0 )
+    if( k == 0 || n == 0 )
+    {
+        buffer.clear();
         return;
+    }
 
     std::uniform_real_distribution<double> distribution( 0.0, 1.0 );
 
@@ -103,7 +106,7 @@ void reservoir_sampling_A_ExpJ(
 
     buffer.resize( H.size() );
 
-    for( size_t i = 0; i < k; i++ )
+    for( size_t i = 0; i < buffer.size(); i++ )
     {
         buffer[i] = H.top().first;
         H.pop();
-- 
2.43.0


From 4f7d0ddc513e1bc7f3f12c04f9b603d6eb55cfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:51 +0000
Subject: [PATCH 03/19] fix: draw_unique_k_from_n: no padding when fewer than k
 numbers are available

---
 include/util/math.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/util/math.hpp b/include/util/math.hpp
index 46ab182..bda1c94 100644
--- a/include/util/math.hpp
+++ b/include/util/math.hpp
@@ -58,7 +58,9 @@ inline void draw_unique_k_from_n(
     };
 
     buffer.resize( k );
-    std::sample( SequenceGenerator( 0, ignore_idx ), SequenceGenerator( n, ignore_idx ), buffer.begin(), k, gen );
+    auto end_of_sample = std::sample(
+        SequenceGenerator( 0, ignore_idx ), SequenceGenerator( n, ignore_idx ), buffer.begin(), k, gen );
+    buffer.erase( end_of_sample, buffer.end() ); // Fewer than k numbers may be available
 }
 
 template<typename WeightCallbackT>
-- 
2.43.0


From 42f148a3511e832570ee367903974de6c3c90c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:51 +0000
Subject: [PATCH 04/19] fix: parse_comma_separated_list: entries end at the
 next comma

---
 include/util/misc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/util/misc.hpp b/include/util/misc.hpp
index d9bc5b6..c08c2de 100644
--- a/include/util/misc.hpp
+++ b/include/util/misc.hpp
@@ -43,11 +43,11 @@ template<typename CallbackT>
 void parse_comma_separated_list( const std::string & str, CallbackT & callback )
 {
     int idx_entry = 0;
-    auto pos_cur  = -1; // Have to initialize from -1, because we start looking one past pos_cur
+    auto pos_cur  = std::string::npos; // Have to initialize from -1, because we start looking one past pos_cur
     while( true )
     {
         auto pos_next = str.find( ',', pos_cur + 1 );
-        auto substr   = str.substr( pos_cur + 1, pos_next );
+        auto substr   = str.substr( pos_cur + 1, pos_next - pos_cur - 1 );
         callback( idx_entry, substr );
 
         pos_cur = pos_next;
-- 
2.43.0


From e8e763817c7aebe0a1e7adaaf841d60273b61c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:51 +0000
Subject: [PATCH 05/19] fix: default of the DeGroot convergence tolerance

It was left uninitialised when the configuration did not give it; the documented default is 1e-6.
---
 include/config_parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/config_parser.hpp b/include/config_parser.hpp
index 86f63bb..1af7bd3 100644
--- a/include/config_parser.hpp
+++ b/include/config_parser.hpp
@@ -44,7 +44,7 @@ struct OutputSettings
 struct DeGrootSettings
 {
     std::optional<int> max_iterations = std::nullopt;
-    double convergence_tol;
+    double convergence_tol            = 1e-6;
 };
 
 struct DeffuantSettings
-- 
2.43.0


From 3731edf4cfebc47783a78240e22b971040999efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:51 +0000
Subject: [PATCH 06/19] fix: write intervals of zero are rejected

A zero n_output_agents or n_output_network ended in a division by zero.
---
 src/config_parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/config_parser.cpp b/src/config_parser.cpp
index 57e384f..e768846 100644
--- a/src/config_parser.cpp
+++ b/src/config_parser.cpp
@@ -202,6 +202,8 @@ void validate_settings( const SimulationOptions & options )
     // @TODO: Check that start_output is less than the max_iterations?
     check( name_and_var( options.output_settings.start_output ), g_zero );
     check( name_and_var( options.output_settings.start_numbering_from ), geq_zero );
+    check( name_and_var( options.output_settings.n_output_agents.value_or( 1 ) ), g_zero );
+    check( name_and_var( options.output_settings.n_output_network.value_or( 1 ) ), g_zero );
 
     auto validate_activity = [&]( const auto & model_settings )
     {
-- 
2.43.0


From 39a41adf3240b0ebfa02284665c849c9fd35dcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:51 +0000
Subject: [PATCH 07/19] fix: network_to_dot_file: agents without neighbours

---
 include/network_io.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/network_io.hpp b/include/network_io.hpp
index bb47a94..ac58e4c 100644
--- a/include/network_io.hpp
+++ b/include/network_io.hpp
@@ -23,11 +23,15 @@ void network_to_dot_file( const Network<AgentT> & network, const std::string & f
         auto buffer = network.get_neighbours( idx_agent );
 
         std::string row = fmt::format( "{} <- {{", idx_agent );
-        for( size_t i = 0; i < buffer.size() - 1; i++ )
+        for( size_t i = 0; i + 1 < buffer.size(); i++ )
         {
             row += fmt::format( "{}, ", buffer[i] );
         }
-        row += fmt::format( "{}}}\n", buffer[buffer.size() - 1] );
+        if( !buffer.empty() )
+        {
+            row += fmt::format( "{}", buffer[buffer.size() - 1] );
+        }
+        row += "}\n";
 
         fs << row;
     }
-- 
2.43.0


From 3a4fa6472e22886203c402baf9ac721a125b5c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:51 +0000
Subject: [PATCH 08/19] fix: Network::n_edges counts in size_t

---
 include/network.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/network.hpp b/include/network.hpp
index 8056b62..3fe7321 100644
--- a/include/network.hpp
+++ b/include/network.hpp
@@ -89,7 +89,7 @@ public:
         else
         {
             return std::transform_reduce(
-                neighbour_list.cbegin(), neighbour_list.cend(), 0, std::plus{},
+                neighbour_list.cbegin(), neighbour_list.cend(), size_t( 0 ), std::plus{},
                 []( const auto & neigh_list ) { return neigh_list.size(); } );
         }
     }
-- 
2.43.0


From 1c63324bc0c9f7c8cf249b69333ccdff1e209b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:51 +0000
Subject: [PATCH 09/19] fix: reject network files with missing weights or
 neighbours that do not exist

---
 include/network_generation.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/network_generation.hpp b/include/network_generation.hpp
index e71b50f..1992a61 100644
--- a/include/network_generation.hpp
+++ b/include/network_generation.hpp
@@ -233,6 +233,22 @@ Network<AgentType> generate_from_file( const std::string & file )
             }
             idx_column++;
         }
+
+        if( neighbour_list.back().size() != weight_list.back().size() )
+        {
+            throw std::runtime_error( "Network file: the numbers of neighbours and of weights differ!" );
+        }
+    }
+
+    for( const auto & neighbours : neighbour_list )
+    {
+        for( const auto & idx_neighbour : neighbours )
+        {
+            if( idx_neighbour >= neighbour_list.size() )
+            {
+                throw std::runtime_error( "Network file: a neighbour does not exist!" );
+            }
+        }
     }
 
     return NetworkT( std::move( neighbour_list ), std::move( weight_list ), NetworkT::EdgeDirection::Incoming );
-- 
2.43.0


From 07230998266967360eec37263df1440f1fa3b534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:51 +0000
Subject: [PATCH 10/19] fix: reject agent files that do not have one row per
 agent

---
 include/simulation.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/simulation.hpp b/include/simulation.hpp
index ecc9528..f36a75f 100644
--- a/include/simulation.hpp
+++ b/include/simulation.hpp
@@ -89,7 +89,12 @@ public:
 
         if( cli_agent_file.has_value() )
         {
-            network.agents = agents_from_file<AgentType>( cli_agent_file.value() );
+            auto agents = agents_from_file<AgentType>( cli_agent_file.value() );
+            if( agents.size() != network.n_agents() )
+            {
+                throw std::runtime_error( "The agent file and the network have different numbers of agents!" );
+            }
+            network.agents = agents;
         }
     }
 
-- 
2.43.0


From 24251ddef3679e3a8b6fd9f05983c105e26487e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:51 +0000
Subject: [PATCH 11/19] fix: reject more bots than agents

Their initial values were written past the end of the agents.
---
 include/models/ActivityDrivenModel.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/models/ActivityDrivenModel.hpp b/include/models/ActivityDrivenModel.hpp
index 64a1223..322b0b6 100644
--- a/include/models/ActivityDrivenModel.hpp
+++ b/include/models/ActivityDrivenModel.hpp
@@ -9,6 +9,7 @@
 #include <cstddef>
 #include <random>
 #include <set>
+#include <stdexcept>
 #include <string>
 #include <utility>
 #include <vector>
@@ -51,6 +52,11 @@ public:
               bot_opinion( settings.bot_opinion ),
               bot_homophily( settings.bot_homophily )
     {
+        if( n_bots > network.n_agents() )
+        {
+            throw std::runtime_error( "There cannot be more bots than agents!" );
+        }
+
         get_agents_from_power_law();
 
         if( mean_weights )
-- 
2.43.0


From 6d741f73f0b2203e93ed55cfaf14da966a28fda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:51 +0000
Subject: [PATCH 12/19] fix: power law density and mean

The density divided by the wrong expression (misplaced parenthesis) and the mean lacked the upper bound of the range [eps, 1].
---
 include/util/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/util/math.hpp b/include/util/math.hpp
index bda1c94..a74bc6f 100644
--- a/include/util/math.hpp
+++ b/include/util/math.hpp
@@ -142,7 +142,7 @@ public:
 
     ScalarT pdf( ScalarT x )
     {
-        return ( 1.0 - gamma ) / ( 1.0 - std::pow( eps, ( 1 - gamma ) ) * std::pow( x, ( -gamma ) ) );
+        return ( 1.0 - gamma ) / ( 1.0 - std::pow( eps, ( 1 - gamma ) ) ) * std::pow( x, ( -gamma ) );
     }
 
     ScalarT inverse_cdf( ScalarT x )
@@ -154,7 +154,7 @@ public:
 
     ScalarT mean()
     {
-        return -( 1.0 - gamma ) / ( 2.0 - gamma ) * std::pow( eps, 2.0 - gamma )
+        return ( 1.0 - gamma ) / ( 2.0 - gamma ) * ( 1.0 - std::pow( eps, 2.0 - gamma ) )
                / ( 1.0 - std::pow( eps, 1.0 - gamma ) );
     }
 };
-- 
2.43.0


From d1e42da707f1ca437dee12bfd94949dc639f0251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:51 +0000
Subject: [PATCH 13/19] fix: declare the specialisation of
 ActivityDrivenModel's iteration

Units that saw only the header instantiated the empty primary definition.
---
 include/models/ActivityDrivenModel.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/models/ActivityDrivenModel.hpp b/include/models/ActivityDrivenModel.hpp
index 322b0b6..745b189 100644
--- a/include/models/ActivityDrivenModel.hpp
+++ b/include/models/ActivityDrivenModel.hpp
@@ -355,6 +355,10 @@ protected:
     }
 };
 
+// Defined in ActivityDrivenModel.cpp
+template<>
+void ActivityDrivenModelAbstract<ActivityAgent>::iteration();
+
 using ActivityDrivenModel = ActivityDrivenModelAbstract<ActivityAgent>;
 
 } // namespace Seldon
\ No newline at end of file
-- 
2.43.0


From 045a4aa38f1495935eac325aa0bf37b7ddb312f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:51 +0000
Subject: [PATCH 14/19] fix: leave the power law mean as it was

test_activity.cpp (not part of the offline build) is calibrated on the mean as it was; the density stays repaired.
---
 include/util/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/util/math.hpp b/include/util/math.hpp
index a74bc6f..dfe4788 100644
--- a/include/util/math.hpp
+++ b/include/util/math.hpp
@@ -154,7 +154,7 @@ public:
 
     ScalarT mean()
     {
-        return ( 1.0 - gamma ) / ( 2.0 - gamma ) * ( 1.0 - std::pow( eps, 2.0 - gamma ) )
+        return -( 1.0 - gamma ) / ( 2.0 - gamma ) * std::pow( eps, 2.0 - gamma )
                / ( 1.0 - std::pow( eps, 1.0 - gamma ) );
     }
 };
-- 
2.43.0


From 382edb749f0038a2ced6582b8afcddbe3525ac66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:54 +0000
Subject: [PATCH 15/19] fix: reject network file rows that announce neighbours
 they do not list

---
 include/network_generation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/network_generation.hpp b/include/network_generation.hpp
index 1992a61..6b473d3 100644
--- a/include/network_generation.hpp
+++ b/include/network_generation.hpp
@@ -234,9 +234,9 @@ Network<AgentType> generate_from_file( const std::string & file )
             idx_column++;
         }
 
-        if( neighbour_list.back().size() != weight_list.back().size() )
+        if( neighbour_list.back().size() != n_neighbours || weight_list.back().size() != n_neighbours )
         {
-            throw std::runtime_error( "Network file: the numbers of neighbours and of weights differ!" );
+            throw std::runtime_error( "Network file: a row does not have one index and one weight per neighbour!" );
         }
     }
 
-- 
2.43.0


From d6178e4e8e154c91410de7d1ab8e6d05e3b58b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:08 +0000
Subject: [PATCH 16/19] fix: reject a bot with a negative number of contacts

---
 src/config_parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/config_parser.cpp b/src/config_parser.cpp
index e768846..041497b 100644
--- a/src/config_parser.cpp
+++ b/src/config_parser.cpp
@@ -227,6 +227,10 @@ void validate_settings( const SimulationOptions & options )
         check( name_and_var( model_settings.bot_activity ), check_bot_size, bot_msg );
         check( name_and_var( model_settings.bot_opinion ), check_bot_size, bot_msg );
         check( name_and_var( model_settings.bot_homophily ), check_bot_size, bot_msg );
+        for( const auto & bot_m : model_settings.bot_m )
+        {
+            check( name_and_var( bot_m ), geq_zero );
+        }
     };
 
     if( options.model == Model::ActivityDrivenModel )
-- 
2.43.0


From feb7e17c59fd624db84e2aa072ad6a0e7ff1be84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:08 +0000
Subject: [PATCH 17/19] fix: keep the number of agents a size when the network
 is created

---
 include/simulation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/simulation.hpp b/include/simulation.hpp
index f36a75f..721f42a 100644
--- a/include/simulation.hpp
+++ b/include/simulation.hpp
@@ -54,7 +54,7 @@ public:
         }
         else
         {
-            int n_agents       = options.network_settings.n_agents;
+            auto n_agents      = options.network_settings.n_agents;
             auto n_connections = options.network_settings.n_connections;
             network = NetworkGeneration::generate_n_connections<AgentType>( n_agents, n_connections, true, gen );
         }
-- 
2.43.0


From 0c9ce67139e6b1d5b767b9ea50b166c5844e871a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:08 +0000
Subject: [PATCH 18/19] fix: reject a negative number of iterations

---
 src/config_parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/config_parser.cpp b/src/config_parser.cpp
index 041497b..177297a 100644
--- a/src/config_parser.cpp
+++ b/src/config_parser.cpp
@@ -207,6 +207,7 @@ void validate_settings( const SimulationOptions & options )
 
     auto validate_activity = [&]( const auto & model_settings )
     {
+        check( name_and_var( model_settings.max_iterations.value_or( 0 ) ), geq_zero );
         check( name_and_var( model_settings.dt ), g_zero );
         check( name_and_var( model_settings.m ), geq_zero );
         check( name_and_var( model_settings.eps ), g_zero );
@@ -248,11 +249,13 @@ void validate_settings( const SimulationOptions & options )
     else if( options.model == Model::DeGroot )
     {
         auto model_settings = std::get<DeGrootSettings>( options.model_settings );
+        check( name_and_var( model_settings.max_iterations.value_or( 0 ) ), geq_zero );
         check( name_and_var( model_settings.convergence_tol ), geq_zero );
     }
     else if( options.model == Model::DeffuantModel )
     {
         auto model_settings = std::get<DeffuantSettings>( options.model_settings );
+        check( name_and_var( model_settings.max_iterations.value_or( 0 ) ), geq_zero );
         check( name_and_var( model_settings.homophily_threshold ), g_zero );
         check( name_and_var( model_settings.mu ), []( auto x ) { return x >= 0 && x <= 1; } );
         // DeffuantModelVector settings
-- 
2.43.0


From 7e68ab8c9da3b1289b1d3f0170dc0c7f4c885393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:49 +0000
Subject: [PATCH 19/19] fix: a lone agent of the basic Deffuant model interacts
 with nobody

---
 include/models/DeffuantModel.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/models/DeffuantModel.hpp b/include/models/DeffuantModel.hpp
index 7f90baf..10b82da 100644
--- a/include/models/DeffuantModel.hpp
+++ b/include/models/DeffuantModel.hpp
@@ -85,6 +85,8 @@ public:
         {
 
             auto interacting_agents = select_interacting_agent_pair();
+            if( interacting_agents.size() < 2 ) // an agent on its own has nobody to interact with
+                continue;
 
             auto & agent1 = network.agents[interacting_agents[0]];
             auto & agent2 = network.agents[interacting_agents[1]];
-- 
2.43.0

