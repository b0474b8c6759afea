From adb22221279d5e4685a8109a851493e24b1e7a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 01/23] fix: erase the requested node from the structural hash
 table

When a node becomes structurally equal to the node it replaces, two nodes
with the same children are in the chain; hash_erase removed the wrong one
and left a deleted node in the table.
---
 include/database/network/aig_network.hpp     | 4 ++--
 include/database/network/details/storage.hpp | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/database/network/aig_network.hpp b/include/database/network/aig_network.hpp
index dd47e56..b9fd6fd 100755
--- a/include/database/network/aig_network.hpp
+++ b/include/database/network/aig_network.hpp
@@ -517,7 +517,7 @@ public:
     const auto old_child1 = signal{node.children[1]};
 
     // erase old node in hash table
-    _storage->hash_erase(node);
+    _storage->hash_erase(node, n);
 
     // insert updated node into hash table
     node.children[0] = child0;
@@ -565,7 +565,7 @@ public:
     /* delete the node (ignoring it's current fanout_size) */
     auto& nobj = _storage->nodes[n];
     nobj.data[0].h1 = UINT32_C( 0x80000000 ); /* fanout size 0, but dead */
-    _storage->hash_erase(nobj);
+    _storage->hash_erase(nobj, n);
 
     for ( auto const& fn : _events->on_delete )
     {
diff --git a/include/database/network/details/storage.hpp b/include/database/network/details/storage.hpp
index 06a1f14..6609af5 100755
--- a/include/database/network/details/storage.hpp
+++ b/include/database/network/details/storage.hpp
@@ -104,16 +104,17 @@ struct storage
     ++num_entries;
   }
 
-  void hash_erase(node_type n)
+  void hash_erase(node_type n, uint64_t index)
   {
     uint64_t key = abc_hash(n, hash.size());
     uint64_t cur = hash[key], pre = hash[key];
-    while(!(n == nodes[cur]) && nodes[cur].next != 0)
+    // compare the index, another node with the same children may be in the chain
+    while(cur != index && nodes[cur].next != 0)
     {
       pre = cur;
       cur = nodes[cur].next;
     }
-    assert(n == nodes[cur]);
+    assert(cur == index);
     if(cur == hash[key])
     {
       hash[key] = nodes[cur].next;
-- 
2.43.0


From 54c142a67c6098973d5d0ae0105ce5b3cb38ea18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:18 +0000
Subject: [PATCH 02/23] fix: keep pending replacements alive in
 aig_network::substitute_node

A cascaded replacement could point to a node that was deleted or replaced
before it was applied, leaving outputs and gates that refer to dead nodes.
---
 include/database/network/aig_network.hpp | 39 ++++++++++++++++++++----
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/include/database/network/aig_network.hpp b/include/database/network/aig_network.hpp
index b9fd6fd..fbf90ce 100755
--- a/include/database/network/aig_network.hpp
+++ b/include/database/network/aig_network.hpp
@@ -594,33 +594,60 @@ public:
 
   void substitute_node( node const& old_node, signal const& new_signal )
   {
-    std::stack<std::pair<node, signal>> to_substitute;
-    to_substitute.push( {old_node, new_signal} );
+    std::vector<std::pair<node, signal>> to_substitute;
+    to_substitute.push_back( {old_node, new_signal} );
+
+    /* a pending replacement keeps one reference, it must not be deleted before it is applied */
+    const node new_node = new_signal.index;
+    const bool keep_new_node = fanout_size( new_node ) == 0;
+    incr_fanout_size( new_node );
 
     while ( !to_substitute.empty() )
     {
-      const auto [_old, _new] = to_substitute.top();
-      to_substitute.pop();
+      const auto [_old, _new] = to_substitute.back();
+      to_substitute.pop_back();
 
       for ( auto idx = 1u; idx < _storage->nodes.size(); ++idx )
       {
         if ( is_ci( idx ) || is_dead( idx ) )
           continue; /* ignore CIs */
 
+        /* skip nodes that will be deleted */
+        if ( std::find_if( to_substitute.begin(), to_substitute.end(),
+                           [&idx]( auto const& s ) { return s.first == idx; } ) != to_substitute.end() )
+          continue;
+
         if ( const auto repl = replace_in_node( idx, _old, _new ); repl )
         {
-          to_substitute.push( *repl );
+          incr_fanout_size( repl->second.index );
+          to_substitute.push_back( *repl );
         }
       }
 
       /* check outputs */
       replace_in_outputs( _old, _new );
 
-      /* recursively reset old node */
       if ( _old != _new.index )
       {
+        /* check pending replacements */
+        for ( auto& s : to_substitute )
+        {
+          if ( s.second.index == _old )
+          {
+            s.second = s.second.complement ? !_new : _new;
+            incr_fanout_size( _new.index );
+          }
+        }
+
+        /* recursively reset old node */
         take_out_node( _old );
       }
+
+      /* release the pending replacement */
+      if ( decr_fanout_size( _new.index ) == 0 && !( keep_new_node && _new.index == new_node ) )
+      {
+        take_out_node( _new.index );
+      }
     }
   }
 
-- 
2.43.0


From 224794dd118f29c5cf947989ca42ef2cfaf02bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:24 +0000
Subject: [PATCH 03/23] fix: give primary inputs a level before
 depth_view::create_po reads it

---
 include/database/views/depth_view.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/database/views/depth_view.hpp b/include/database/views/depth_view.hpp
index be6400d..b27769c 100644
--- a/include/database/views/depth_view.hpp
+++ b/include/database/views/depth_view.hpp
@@ -184,6 +184,7 @@ public:
   uint32_t create_po( signal const& f, std::string const& name = std::string() )
   {
     auto po = Ntk::create_po( f, name );
+    _levels.resize(); /* primary inputs are not announced by `on_add` */
     _depth = std::max( _depth, _levels[f] );
     return po;
   }
-- 
2.43.0


From eb1c220edd843151c67fc9122172292a6df80f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 04/23] fix: stop notifying a depth_view after its destruction

---
 include/database/views/depth_view.hpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/include/database/views/depth_view.hpp b/include/database/views/depth_view.hpp
index b27769c..3b0c530 100644
--- a/include/database/views/depth_view.hpp
+++ b/include/database/views/depth_view.hpp
@@ -18,6 +18,7 @@
 #pragma once
 
 #include <cstdint>
+#include <memory>
 #include <vector>
 
 #include "utils/traits.hpp"
@@ -109,7 +110,7 @@ public:
     static_assert( has_foreach_po_v<Ntk>, "Ntk does not implement the foreach_po method" );
     static_assert( has_foreach_fanin_v<Ntk>, "Ntk does not implement the foreach_fanin method" );
 
-    Ntk::events().on_add.push_back( [this]( auto const& n ) { on_add( n ); } );
+    register_observer();
   }
 
   /*! \brief Standard constructor.
@@ -135,7 +136,7 @@ public:
 
     update_levels();
 
-    Ntk::events().on_add.push_back( [this]( auto const& n ) { on_add( n ); } );
+    register_observer();
   }
 
   // We should add these or make sure that members are properly copied
@@ -190,6 +191,27 @@ public:
   }
 
 private:
+  /* Identifies one view object, a copied view gets an identity of its own. */
+  struct lifetime
+  {
+    lifetime() = default;
+    lifetime( lifetime const& ) : lifetime() {}
+    lifetime& operator=( lifetime const& ) { return *this; }
+
+    std::shared_ptr<bool> token = std::make_shared<bool>( true );
+  };
+
+  /* The network's event list can outlive this view. */
+  void register_observer()
+  {
+    Ntk::events().on_add.push_back( [this, alive = std::weak_ptr<bool>( _lifetime.token )]( auto const& n ) {
+      if ( !alive.expired() )
+      {
+        on_add( n );
+      }
+    } );
+  }
+
   uint32_t compute_levels( node const& n )
   {
     if ( this->visited( n ) == this->trav_id() )
@@ -280,6 +302,7 @@ private:
   node_map<uint32_t, Ntk> _crit_path;
   uint32_t _depth{};
   NodeCostFn _cost_fn;
+  lifetime _lifetime;
 };
 
 template<class T>
-- 
2.43.0


From c1710fb2e9adf52782af9784dcfb7da41059efe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:38 +0000
Subject: [PATCH 05/23] fix: derive a LUT network when no primary output needs
 a cell

---
 .../operations/algorithms/network_to_klut.hpp | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/operations/algorithms/network_to_klut.hpp b/include/operations/algorithms/network_to_klut.hpp
index fc90b82..c94039c 100644
--- a/include/operations/algorithms/network_to_klut.hpp
+++ b/include/operations/algorithms/network_to_klut.hpp
@@ -27,6 +27,19 @@ iFPGA_NAMESPACE_HEADER_START
 
 namespace detail
 {
+/*! \brief Whether some primary output is driven by a gate, only such a network needs cells. */
+template<class Ntk>
+bool has_gate_output( Ntk const& ntk )
+{
+  bool result = false;
+  ntk.foreach_po( [&]( auto const& f ) {
+    const auto n = ntk.get_node( f );
+    if ( !ntk.is_constant( n ) && !ntk.is_pi( n ) )
+      result = true;
+  } );
+  return result;
+}
+
 template<class NtkDest, class NtkSource>
 class collapse_mapped_network_impl
 {
@@ -383,7 +396,7 @@ class collapse_mapped_choice_impl
 template<class NtkDest, class NtkSource>
 std::optional<NtkDest> network_to_klut( NtkSource const& ntk )
 {
-  if ( !ntk.has_mapping() && ntk.num_gates() > 0 )
+  if ( !ntk.has_mapping() && detail::has_gate_output( ntk ) )
   {
     return std::nullopt;
   }
@@ -399,7 +412,7 @@ std::optional<NtkDest> network_to_klut( NtkSource const& ntk )
 template<class NtkDest, class NtkSource>
 bool network_to_klut( NtkDest& dest, NtkSource const& ntk )
 {
-  if ( !ntk.has_mapping() && ntk.num_gates() > 0 )
+  if ( !ntk.has_mapping() && detail::has_gate_output( ntk ) )
   {
     return false;
   }
@@ -415,7 +428,7 @@ bool network_to_klut( NtkDest& dest, NtkSource const& ntk )
 template<class NtkDest, class NtkSource>
 std::optional<NtkDest> choice_to_klut( NtkSource const& ntk )
 {
-  if ( !ntk.has_mapping() && ntk.num_gates() > 0 )
+  if ( !ntk.has_mapping() && detail::has_gate_output( ntk ) )
   {
     return std::nullopt;
   }
@@ -431,7 +444,7 @@ std::optional<NtkDest> choice_to_klut( NtkSource const& ntk )
 template<class NtkDest, class NtkSource>
 bool choice_to_klut( NtkDest& dest, NtkSource const& ntk )
 {
-  if ( !ntk.has_mapping() && ntk.num_gates() > 0 )
+  if ( !ntk.has_mapping() && detail::has_gate_output( ntk ) )
   {
     return false;
   }
-- 
2.43.0


From fac62233f03e6f5c9b83810132b90aa2cf798f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:15 +0000
Subject: [PATCH 06/23] fix: make room for the documented range of priority cut
 limits

---
 include/database/cut/cut_enumeration.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/database/cut/cut_enumeration.hpp b/include/database/cut/cut_enumeration.hpp
index b6e11c9..29399bd 100755
--- a/include/database/cut/cut_enumeration.hpp
+++ b/include/database/cut/cut_enumeration.hpp
@@ -155,7 +155,7 @@ template<typename Ntk, bool ComputeTruth, typename CutData>
 struct network_cuts
 {
 public:
-  static constexpr uint32_t max_cut_num = 12;
+  static constexpr uint32_t max_cut_num = 21;
   using cut_t     = cut_type<ComputeTruth, CutData>;
   using cut_set_t = cut_set<cut_t, max_cut_num>;
 
-- 
2.43.0


From db374c0c2a91e09063482208b089122b81c10a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:52 +0000
Subject: [PATCH 07/23] fix: take out dangling gates before refactor collects
 depth information

---
 include/operations/optimization/refactor.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/operations/optimization/refactor.hpp b/include/operations/optimization/refactor.hpp
index 2a45a3f..bc2f21d 100644
--- a/include/operations/optimization/refactor.hpp
+++ b/include/operations/optimization/refactor.hpp
@@ -108,12 +108,25 @@ namespace detail
   private:
     void init()
     {
+      take_out_dangling_nodes();
       init_nodes_defered_size();
       compute_depth_info();
       compute_reverse_depth_info();
       compute_fanouts_info();
     }
 
+    /**
+     * @brief remove the gates no output depends on, the depth information does not cover them
+     */
+    void take_out_dangling_nodes()
+    {
+      _ntk.foreach_gate([&](auto const &n)
+                        {
+        if (_ntk.fanout_size(n) == 0u) {
+          _ntk.take_out_node(n);
+        } });
+    }
+
     /**
      * @brief initizlize the node's tmp_defered_size with fanout
      */
-- 
2.43.0


From acdcb6e6a0064e30538ee5183460057c8ff9b9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:45 +0000
Subject: [PATCH 08/23] fix: keep port names aligned when the AIGER symbol
 table is partial

---
 include/operations/io/reader.hpp | 112 +++++++++++++++++++++----------
 1 file changed, 78 insertions(+), 34 deletions(-)

diff --git a/include/operations/io/reader.hpp b/include/operations/io/reader.hpp
index 61a2d2d..94de1a8 100755
--- a/include/operations/io/reader.hpp
+++ b/include/operations/io/reader.hpp
@@ -100,6 +100,57 @@ public:
 }; 
 
 
+/**
+ * @brief aiger reader recording the port names by port index
+ */
+template<typename Ntk>
+class indexed_names_reader : public aiger_reader<Ntk>
+{
+public:
+  indexed_names_reader( Ntk& ntk, std::vector<std::string>& input_names, std::vector<std::string>& output_names )
+    : aiger_reader<Ntk>::aiger_reader(ntk), _input_names(input_names), _output_names(output_names)
+  {}
+
+  void on_header(uint64_t m, uint64_t num_inputs, uint64_t num_latches, uint64_t num_outputs, uint64_t num_ands) const override
+  {
+    this->aiger_reader<Ntk>::on_header(m, num_inputs, num_latches, num_outputs, num_ands);
+    _num_inputs = static_cast<unsigned>(num_inputs);
+    _num_outputs = static_cast<unsigned>(num_outputs);
+  }
+
+  void on_input_name(unsigned index, const std::string& name) const override
+  {
+    this->aiger_reader<Ntk>::on_input_name(index, name);
+    record(_input_names, index, name);
+  }
+
+  void on_output_name(unsigned index, const std::string& name) const override
+  {
+    this->aiger_reader<Ntk>::on_output_name(index, name);
+    record(_output_names, index, name);
+  }
+
+  void on_latch_name(unsigned index, const std::string& name) const override
+  {
+    this->aiger_reader<Ntk>::on_latch_name(index, name);
+    record(_input_names, _num_inputs + index, name);
+    record(_output_names, _num_outputs + index, name + "_next");
+  }
+
+private:
+  static void record(std::vector<std::string>& names, unsigned index, const std::string& name)
+  {
+    if(names.size() <= index)
+      names.resize(index + 1);
+    names[index] = name;
+  }
+
+  mutable unsigned _num_inputs = 0;
+  mutable unsigned _num_outputs = 0;
+  std::vector<std::string>& _input_names;
+  std::vector<std::string>& _output_names;
+};
+
 enum FileType{
   aag = 0,
   aig,
@@ -119,46 +170,18 @@ public:
   {
     assert( isFileExist(path_in) );
 
-    /// way1: use NameMap
-    NameMap<Ntk> nameMap;
-    auto const result = lorina::read_aiger( path_in , aiger_reader<Ntk>{_aig, &nameMap});
-
-    /// way2: use inherited class 
-    //aig_reader<iFPGA_NAMESPACE::aig_network> reader(_aig);
-    //auto const result = lorina::read_aiger( path_in , reader );
+    // keep the names by port index, the symbol table may be partial
+    std::vector<std::string> inputNames, outputNames;
+    auto const result = lorina::read_aiger( path_in , indexed_names_reader<Ntk>{_aig, inputNames, outputNames});
 
     if( result == lorina::return_code::success )
     {
       // std::cout<< "\tINFO: read the aig file SUCCESS, path from: "<< path_in << std::endl;
       _state = true;
       aig = _aig;
-      /// Network + NameMap -> write_verilog_params
-      {
-        using signal = typename Ntk::signal;
-        std::map<uint64_t, uint32_t> signalCount; // for one signal has multiple names
-        for(auto input: aig._storage->inputs)
-        {
-          signal s = signal{input, 0};
-          auto names = nameMap[s];
-          if(!names.empty())
-          {
-            auto name = names[signalCount[s.data]++];
-            if(!name.empty())
-              portnames.input_names.emplace_back(std::make_pair(to_escaped_identifier(name), 0));
-          }
-        }
-        for(auto output : aig._storage->outputs)
-        {
-          signal s = signal{output.index, output.weight};
-          auto names = nameMap[s];
-          if(!names.empty())
-          {
-            auto name = names[signalCount[s.data]++];
-            if(!name.empty())
-              portnames.output_names.emplace_back(std::make_pair(to_escaped_identifier(name), 0));
-          }
-        }
-      }
+      /// symbol table -> write_verilog_params
+      append_port_names( portnames.input_names, inputNames, aig._storage->inputs.size(), "x" );
+      append_port_names( portnames.output_names, outputNames, aig._storage->outputs.size(), "y" );
     }
     else
     {
@@ -186,6 +209,27 @@ public:
   }
 
 private:
+  /**
+   * @brief the ports without a symbol get the default name of their position
+   */
+  static void append_port_names( std::vector<std::pair<std::string, uint32_t>>& ports, std::vector<std::string> names, size_t size, const std::string& prefix )
+  {
+    if( std::all_of(names.begin(), names.end(), [](const std::string& name) { return name.empty(); }) )
+      return;
+    names.resize(size);
+    for(size_t i = 0; i < size; ++i)
+    {
+      auto name = names[i];
+      if(name.empty())
+      {
+        name = prefix + std::to_string(i);
+        while( std::find(names.begin(), names.end(), name) != names.end() )
+          name += '_';
+      }
+      ports.emplace_back(std::make_pair(to_escaped_identifier(name), 0));
+    }
+  }
+
   std::string                   _path_in;           // the logic synthesis file's path
   int                           _type;              // the reader file's type
   bool                          _state;             // true: reader a file from _path sucess , false not
-- 
2.43.0


From c4dce1a6f8b10de146fe4185128925888ebd9ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:33 +0000
Subject: [PATCH 09/23] fix: keep the depth update of rewriting inside the cut

---
 include/operations/optimization/rewrite.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/operations/optimization/rewrite.hpp b/include/operations/optimization/rewrite.hpp
index db6f73b..a75b9ba 100644
--- a/include/operations/optimization/rewrite.hpp
+++ b/include/operations/optimization/rewrite.hpp
@@ -234,18 +234,15 @@ class rewrite_impl
    * @return depth for n
   */
   int update_arrive_depth(node_t const& n, std::vector<node_t> const& leaves) {
+    // the cone may be a leaf itself, never walk below the leaves
+    if(std::find(leaves.begin(), leaves.end(), n) != leaves.end()) {
+      return _depth_arrive[n];
+    }
     int res = 0;
     _ntk.foreach_fanin(n, [&](auto const& sc){
-      auto nc = _ntk.get_node(sc);
-      if(std::find(leaves.begin(), leaves.end(), nc) != leaves.end()) {
-        res = std::max(res, _depth_arrive[nc] + 1);
-        _depth_arrive[n] = std::max(_depth_arrive[n], _depth_arrive[nc] + 1);
-      }
-      else {
-        res = std::max(res, update_arrive_depth(nc, leaves) + 1);
-        _depth_arrive[n] = std::max(_depth_arrive[n], update_arrive_depth(nc, leaves) + 1);
-      }
+      res = std::max(res, update_arrive_depth(_ntk.get_node(sc), leaves) + 1);
     });
+    _depth_arrive[n] = std::max(_depth_arrive[n], res);
     return res;
   }
 
-- 
2.43.0


From d686d637a185725543c638dceb6faf4ea214edfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:52 +0000
Subject: [PATCH 10/23] fix: never give a gate two equal fanins in rewriting

---
 include/operations/optimization/rewrite.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/operations/optimization/rewrite.hpp b/include/operations/optimization/rewrite.hpp
index a75b9ba..2a604aa 100644
--- a/include/operations/optimization/rewrite.hpp
+++ b/include/operations/optimization/rewrite.hpp
@@ -319,11 +319,16 @@ class rewrite_impl
         auto nfo = _ntk.get_node(sfo);
         auto sc0 = _ntk.get_child0(nfo);
         auto sc1 = _ntk.get_child1(nfo);
+        // two equal fanins would turn the gate into an input, such a fanout keeps the old node
         if(_ntk.get_node(sc0) == old_n) {
-          _ntk.set_child0(nfo, signal_t(new_n, _ntk.is_complemented(new_s)^_ntk.is_complemented(sc0)));
+          auto new_c0 = signal_t(new_n, _ntk.is_complemented(new_s)^_ntk.is_complemented(sc0));
+          if(new_c0 != sc1)
+            _ntk.set_child0(nfo, new_c0);
         }
         if(_ntk.get_node(sc1) == old_n) {
-          _ntk.set_child1(nfo, signal_t(new_n, _ntk.is_complemented(new_s)^_ntk.is_complemented(sc1)));
+          auto new_c1 = signal_t(new_n, _ntk.is_complemented(new_s)^_ntk.is_complemented(sc1));
+          if(new_c1 != _ntk.get_child0(nfo))
+            _ntk.set_child1(nfo, new_c1);
         }
       }
     }
-- 
2.43.0


From 38d07fc0e72a4de56d8b891c4b56d6e0e67835a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:11 +0000
Subject: [PATCH 11/23] fix: bool simulation of a LUT read its truth table with
 reversed fanin order

---
 include/database/network/klut_network.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/database/network/klut_network.hpp b/include/database/network/klut_network.hpp
index 01071d6..b9205b2 100755
--- a/include/database/network/klut_network.hpp
+++ b/include/database/network/klut_network.hpp
@@ -734,10 +734,9 @@ signal create_maj( signal a, signal b, signal c )
   compute( node const& n, Iterator begin, Iterator end ) const
   {
     uint32_t index{0};
-    while ( begin != end )
+    for ( uint32_t i = 0u; begin != end; ++i )
     {
-      index <<= 1;
-      index ^= *begin++ ? 1 : 0;
+      index |= ( *begin++ ? 1u : 0u ) << i;
     }
     return kitty::get_bit( _storage->data.cache[_storage->nodes[n].data[1].h1], index );
   }
-- 
2.43.0


From 2477069e974c7dc4c15960bee9fb84be2e23f73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:23 +0000
Subject: [PATCH 12/23] fix: writing a LUT node's value changed whether the
 node counts as an input

---
 include/database/network/klut_network.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/database/network/klut_network.hpp b/include/database/network/klut_network.hpp
index b9205b2..a02b7fa 100755
--- a/include/database/network/klut_network.hpp
+++ b/include/database/network/klut_network.hpp
@@ -158,8 +158,6 @@ public:
     _storage->inputs.emplace_back( index );
     _storage->nodes[index].data[1].h1 = 2;
     ++_storage->data.num_pis;
-
-    _storage->nodes[index_to_node(index)].data[0].h2 = 1;
     return index;
   }
 
@@ -184,8 +182,6 @@ public:
     _storage->nodes.emplace_back();
     _storage->inputs.emplace_back( index );
     _storage->nodes[index].data[1].h1 = 2;
-
-    _storage->nodes[index_to_node(index)].data[0].h2 = 3;
     return index;
   }
 
@@ -220,13 +216,13 @@ public:
 
   bool is_ci( node const& n ) const
   {
-    return _storage->nodes[n].data[0].h2 == 1 ||
-           _storage->nodes[n].data[0].h2 == 3;
+    /* every gate has at least one fanin */
+    return n > 1 && _storage->nodes[n].children.empty();
   }
 
   bool is_pi( node const& n ) const
   {
-    return _storage->nodes[n].data[0].h2 == 1;
+    return is_ci( n ) && !is_ro( n );
   }
 
   bool is_ro( node const& n ) const
-- 
2.43.0


From a364a1c15afd283516538aef176cde86f8fb5b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:25 +0000
Subject: [PATCH 13/23] fix: LUT input and register index queries read the
 fanin list of an input

---
 include/database/network/klut_network.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/database/network/klut_network.hpp b/include/database/network/klut_network.hpp
index a02b7fa..f293319 100755
--- a/include/database/network/klut_network.hpp
+++ b/include/database/network/klut_network.hpp
@@ -543,8 +543,9 @@ signal create_maj( signal a, signal b, signal c )
 
   uint32_t ci_index( node const& n ) const
   {
-    assert( _storage->nodes[n].children[0].data == _storage->nodes[n].children[1].data );
-    return static_cast<uint32_t>( _storage->nodes[n].children[0].data );
+    auto const it = std::find( _storage->inputs.begin(), _storage->inputs.end(), n );
+    assert( it != _storage->inputs.end() );
+    return static_cast<uint32_t>( it - _storage->inputs.begin() );
   }
 
   uint32_t co_index( signal const& s ) const
@@ -563,8 +564,8 @@ signal create_maj( signal a, signal b, signal c )
 
   uint32_t pi_index( node const& n ) const
   {
-    assert( _storage->nodes[n].children[0].data == _storage->nodes[n].children[1].data );
-    return static_cast<uint32_t>( _storage->nodes[n].children[0].data );
+    assert( is_pi( n ) );
+    return ci_index( n );
   }
 
   uint32_t po_index( signal const& s ) const
@@ -583,8 +584,8 @@ signal create_maj( signal a, signal b, signal c )
 
   uint32_t ro_index( node const& n ) const
   {
-    assert( _storage->nodes[n].children[0].data == _storage->nodes[n].children[1].data );
-    return static_cast<uint32_t>( _storage->nodes[n].children[0].data - _storage->data.num_pis );
+    assert( is_ro( n ) );
+    return ci_index( n ) - _storage->data.num_pis;
   }
 
   uint32_t ri_index( signal const& s ) const
@@ -603,7 +604,7 @@ signal create_maj( signal a, signal b, signal c )
 
   signal ro_to_ri( signal const& s ) const
   {
-    return ( _storage->outputs.begin() + _storage->data.num_pos + _storage->nodes[s].children[0].data - _storage->data.num_pis )->index;
+    return ( _storage->outputs.begin() + _storage->data.num_pos + ro_index( s ) )->index;
   }
 
   node ri_to_ro( signal const& s ) const
-- 
2.43.0


From 77d55150274208ed6f051fdd6aefaeecec6eef2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 14/23] fix: removing a cut from a cut set left two entries
 sharing one cut

---
 include/database/cut/cut_set.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/database/cut/cut_set.hpp b/include/database/cut/cut_set.hpp
index 5f680c9..a23d4d7 100644
--- a/include/database/cut/cut_set.hpp
+++ b/include/database/cut/cut_set.hpp
@@ -213,6 +213,7 @@ public:
     {
       _pcuts[i] = _pcuts[i + 1];
     }
+    _pcuts[size()-1] = bad;
     _pcend--;
     _pend--;
     _length--;
-- 
2.43.0


From 8a59237e73bcbd351a7af83602a3953655c594fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 15/23] fix: cut enumeration aborted on a node whose minimised
 cut function is constant

---
 include/database/cut/cut_set.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/database/cut/cut_set.hpp b/include/database/cut/cut_set.hpp
index a23d4d7..f56a63c 100644
--- a/include/database/cut/cut_set.hpp
+++ b/include/database/cut/cut_set.hpp
@@ -141,7 +141,6 @@ public:
    */
   void insert(CutType const& cut)
   {
-    assert(cut.size());
     _pcend = _pend = std::stable_partition( _pcuts.begin(), _pend, [&cut]( auto const* other ) { return !cut.dominates( *other ); } );
     auto ipos = std::lower_bound( _pcuts.begin(), _pend, &cut, []( auto a, auto b ) { return *a < *b; } );
 
-- 
2.43.0


From ef1d44986ff1e242dfe683ac9b24cd5676b679d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:22 +0000
Subject: [PATCH 16/23] fix: ASCII AIGER reader ignored a latch reset value of
 1

---
 libs/lorina/lorina/aiger.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/lorina/lorina/aiger.hpp b/libs/lorina/lorina/aiger.hpp
index 8b20d85..64a57e5 100644
--- a/libs/lorina/lorina/aiger.hpp
+++ b/libs/lorina/lorina/aiger.hpp
@@ -527,7 +527,7 @@ inline return_code read_ascii_aiger( std::istream& in, const aiger_reader& reade
       {
         init_value = aiger_reader::latch_init_value::ZERO;
       }
-      else if ( tokens[1u] == "1" )
+      else if ( tokens[2u] == "1" )
       {
         init_value = aiger_reader::latch_init_value::ONE;
       }
-- 
2.43.0


From dc6af1eb2664dfa9e883888d103f52e02ffda13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:32 +0000
Subject: [PATCH 17/23] fix: Verilog writer reused port names for internal
 wires

---
 .../operations/io/detail/write_verilog.hpp    | 21 +++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/operations/io/detail/write_verilog.hpp b/include/operations/io/detail/write_verilog.hpp
index 231bb62..49a5141 100644
--- a/include/operations/io/detail/write_verilog.hpp
+++ b/include/operations/io/detail/write_verilog.hpp
@@ -17,10 +17,12 @@
 
 #pragma once
 
+#include <algorithm>
 #include <array>
 #include <fstream>
 #include <iostream>
 #include <string>
+#include <vector>
 
 #include <lorina/verilog.hpp>
 #include <fmt/format.h>
@@ -49,6 +51,20 @@ format_fanin( Ntk const& ntk, node<Ntk> const& n, node_map<std::string, Ntk>& no
   return children;
 }
 
+/* extends the prefix of internal names until no port name starts with it (an escaped identifier names the same object as its plain form) */
+template<class... Ports>
+std::string unused_prefix( std::string prefix, Ports const&... ports )
+{
+  const auto used = [&]( std::vector<std::string> const& names ) {
+    return std::any_of( names.begin(), names.end(), [&]( auto const& name ) { return name.compare( name.rfind( '\\', 0 ) == 0 ? 1 : 0, prefix.size(), prefix ) == 0; } );
+  };
+  while ( ( used( ports ) || ... ) )
+  {
+    prefix += '_';
+  }
+  return prefix;
+}
+
 } // namespace detail
 
 struct write_verilog_params
@@ -171,9 +187,10 @@ void write_verilog( Ntk const& ntk, std::ostream& os, write_verilog_params const
     }
   }
 
+  const auto wire = detail::unused_prefix( "n", inputs, outputs );
   std::vector<std::string> ws;
   ntk.foreach_gate( [&]( auto const& n ) {
-    ws.emplace_back( fmt::format( "n{}", ntk.node_to_index( n ) ) );
+    ws.emplace_back( fmt::format( "{}{}", wire, ntk.node_to_index( n ) ) );
   } );
 
   lorina::verilog_writer writer( os );
@@ -235,7 +252,7 @@ void write_verilog( Ntk const& ntk, std::ostream& os, write_verilog_params const
       return true;
 
     /* assign a name */
-    node_names[n] = fmt::format( "n{}", ntk.node_to_index( n ) );
+    node_names[n] = fmt::format( "{}{}", wire, ntk.node_to_index( n ) );
 
     if ( ntk.is_and( n ) )
     {
-- 
2.43.0


From 8443efc4cbefe9b40834a730503461dbec838eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:28 +0000
Subject: [PATCH 18/23] fix: LUT netlist writer reused port names for wires and
 instances

---
 include/operations/io/detail/writer_lut.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/operations/io/detail/writer_lut.hpp b/include/operations/io/detail/writer_lut.hpp
index 9cb953a..abf2373 100644
--- a/include/operations/io/detail/writer_lut.hpp
+++ b/include/operations/io/detail/writer_lut.hpp
@@ -30,6 +30,7 @@
 #include <kitty/print.hpp>
 
 #include "utils/util.hpp"
+#include "write_verilog.hpp"
 
 iFPGA_NAMESPACE_HEADER_START
 
@@ -114,6 +115,9 @@ void write_lut( Ntk const& ntk, std::ostream& os, write_verilog_params const& ps
     }
   }
 
+  const auto wire_prefix = detail::unused_prefix( "_w", vec_pis, vec_pos );
+  const auto inst_prefix = detail::unused_prefix( "name", vec_pis, vec_pos );
+
   std::vector< LUT > vec_LUTs;
   std::unordered_set<uint32_t> uset_wires;    // using the set to flag the already exsit node.
   ntk.foreach_node( [&]( auto const& n ) {
@@ -129,15 +133,15 @@ void write_lut( Ntk const& ntk, std::ostream& os, write_verilog_params const& ps
       }
       std::string tmp_fanin;
       if( uset_wires.count(  ntk.node_to_index( ntk.get_node( c ) )  ) )
-        tmp_fanin =  fmt::format( "_w{}_", ntk.node_to_index( ntk.get_node( c ) ) );
+        tmp_fanin =  fmt::format( "{}{}_", wire_prefix, ntk.node_to_index( ntk.get_node( c ) ) );
       else if (pi_map.count(ntk.node_to_index(ntk.get_node(c))))
         tmp_fanin =  fmt::format( "{}", pi_map[ntk.node_to_index( ntk.get_node( c ) )] );
       else
         assert(0);
       tmp_lut.fanins.emplace_back( tmp_fanin );
     } );
-    tmp_lut.name = fmt::format( "name{}", vec_LUTs.size() );
-    tmp_lut.fanout = fmt::format( "_w{}_", ntk.node_to_index( n ) );  // should be node , not output
+    tmp_lut.name = fmt::format( "{}{}", inst_prefix, vec_LUTs.size() );
+    tmp_lut.fanout = fmt::format( "{}{}_", wire_prefix, ntk.node_to_index( n ) );  // should be node , not output
     vec_LUTs.emplace_back( tmp_lut );
   } );
 
@@ -168,7 +172,7 @@ void write_lut( Ntk const& ntk, std::ostream& os, write_verilog_params const& ps
   }
   for(auto wire : uset_wires)
   {
-    os << fmt::format( "\twire _w{}_ ;\n", wire );
+    os << fmt::format( "\twire {}{}_ ;\n", wire_prefix, wire );
   }
   
   for(auto lut : vec_LUTs)
@@ -205,8 +209,9 @@ void write_lut( Ntk const& ntk, std::ostream& os, write_verilog_params const& ps
     }
     else
     {
-      os << fmt::format( "\tassign {} = _w{}_ ;\n",
+      os << fmt::format( "\tassign {} = {}{}_ ;\n",
                          vec_pos[i],
+                         wire_prefix,
                          ntk.node_to_index( ntk.get_node( s ) ) );
     }
   } );
-- 
2.43.0


From ff29f3e7f127a49c93a4dc70e57d7e85ac3d3a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:25 +0000
Subject: [PATCH 19/23] fix: default port names of written netlists could equal
 the given names of other ports

---
 include/operations/io/detail/write_verilog.hpp | 14 ++++++++++++--
 include/operations/io/detail/writer_lut.hpp    |  6 ++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/operations/io/detail/write_verilog.hpp b/include/operations/io/detail/write_verilog.hpp
index 49a5141..14156ab 100644
--- a/include/operations/io/detail/write_verilog.hpp
+++ b/include/operations/io/detail/write_verilog.hpp
@@ -65,6 +65,16 @@ std::string unused_prefix( std::string prefix, Ports const&... ports )
   return prefix;
 }
 
+inline std::vector<std::string> port_names( std::vector<std::pair<std::string, uint32_t>> const& ports )
+{
+  std::vector<std::string> names;
+  for ( auto const& port : ports )
+  {
+    names.emplace_back( port.first );
+  }
+  return names;
+}
+
 } // namespace detail
 
 struct write_verilog_params
@@ -125,7 +135,7 @@ void write_verilog( Ntk const& ntk, std::ostream& os, write_verilog_params const
   if ( ps.input_names.empty() )
   {
     for ( auto i = 0u; i < ntk.num_pis(); ++i )
-      xs.emplace_back( fmt::format( "x{}", i ) );
+      xs.emplace_back( fmt::format( "{}{}", detail::unused_prefix( "x", detail::port_names( ps.output_names ) ), i ) );
     inputs = xs;
   }
   else
@@ -158,7 +168,7 @@ void write_verilog( Ntk const& ntk, std::ostream& os, write_verilog_params const
   if ( ps.output_names.empty() )
   {
     for ( auto i = 0u; i < ntk.num_pos(); ++i )
-      ys.emplace_back( fmt::format( "y{}", i ) );
+      ys.emplace_back( fmt::format( "{}{}", detail::unused_prefix( "y", detail::port_names( ps.input_names ) ), i ) );
     outputs = ys;
   }
   else
diff --git a/include/operations/io/detail/writer_lut.hpp b/include/operations/io/detail/writer_lut.hpp
index abf2373..c2b99f5 100644
--- a/include/operations/io/detail/writer_lut.hpp
+++ b/include/operations/io/detail/writer_lut.hpp
@@ -81,8 +81,9 @@ void write_lut( Ntk const& ntk, std::ostream& os, write_verilog_params const& ps
   std::map<uint32_t, std::string> pi_map;
   if(ps.input_names.empty())
   {
+    const auto prefix = detail::unused_prefix( "_i", detail::port_names( ps.output_names ) );
     ntk.foreach_pi( [&]( auto const& n ) {
-      vec_pis.emplace_back( fmt::format( "_i{}_", ntk.node_to_index(n)) );
+      vec_pis.emplace_back( fmt::format( "{}{}_", prefix, ntk.node_to_index(n)) );
     } );
   }
   else
@@ -101,9 +102,10 @@ void write_lut( Ntk const& ntk, std::ostream& os, write_verilog_params const& ps
   std::vector< std::string > vec_pos;
   if(ps.output_names.empty())
   {
+    const auto prefix = detail::unused_prefix( "_o", detail::port_names( ps.input_names ) );
     for ( auto i = 0u; i < ntk.num_pos(); ++i )
     {
-      vec_pos.emplace_back( fmt::format( "_o{}_", i ) );
+      vec_pos.emplace_back( fmt::format( "{}{}_", prefix, i ) );
     }
   }
   else
-- 
2.43.0


From d09134e74b49d8aca415c7e969507104d457cf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:23 +0000
Subject: [PATCH 20/23] fix: mapping with choices could rank the trivial cut of
 a node and choose it as its best cut

---
 include/operations/algorithms/klut_mapping.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/operations/algorithms/klut_mapping.hpp b/include/operations/algorithms/klut_mapping.hpp
index ee87933..0b7f13a 100644
--- a/include/operations/algorithms/klut_mapping.hpp
+++ b/include/operations/algorithms/klut_mapping.hpp
@@ -383,6 +383,15 @@ class klut_mapping_impl
       }
 
       auto& cuts_repr = _cut_network.cuts(n);
+      // the trival cut takes no part in the order of the cuts, it is added again at the end
+      for( int i = 0; i < cuts_repr.size(); ++i )
+      {
+        if( cuts_repr[i].size() == 1u && *cuts_repr[i].begin() == n )
+        {
+          cuts_repr.remove(i);
+          break;
+        }
+      }
       auto next_choice_node = _ntk.get_equiv_node(n);
 
       while(next_choice_node != AIG_NULL)
-- 
2.43.0


From 2b43e0bcebe36c10c8f3126e5ad4a90453ecf43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:31 +0000
Subject: [PATCH 21/23] fix: depth after adding a complemented output ignored
 the complement when complements are counted

---
 include/database/views/depth_view.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/database/views/depth_view.hpp b/include/database/views/depth_view.hpp
index 3b0c530..696cf10 100644
--- a/include/database/views/depth_view.hpp
+++ b/include/database/views/depth_view.hpp
@@ -186,7 +186,12 @@ public:
   {
     auto po = Ntk::create_po( f, name );
     _levels.resize(); /* primary inputs are not announced by `on_add` */
-    _depth = std::max( _depth, _levels[f] );
+    auto clevel = _levels[f];
+    if ( _ps.count_complements && this->is_complemented( f ) )
+    {
+      clevel++;
+    }
+    _depth = std::max( _depth, clevel );
     return po;
   }
 
-- 
2.43.0


From cd0a73804183b98acbea643593bab2d18b1e5e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:31 +0000
Subject: [PATCH 22/23] fix: equivalence checking crashed when the output or an
 input of the miter occurs in no clause

---
 include/operations/algorithms/equivalence_checking.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/operations/algorithms/equivalence_checking.hpp b/include/operations/algorithms/equivalence_checking.hpp
index 96d91cc..d8c2ba9 100644
--- a/include/operations/algorithms/equivalence_checking.hpp
+++ b/include/operations/algorithms/equivalence_checking.hpp
@@ -86,6 +86,7 @@ public:
     stopwatch<> t( st_.time_total );
 
     percy::bsat_wrapper solver;
+    solver.set_nr_vars( miter_.size() ); /* inputs and the output need not occur in any clause */
     int output = generate_cnf( miter_, [&]( auto const& clause ) {
       solver.add_clause( clause );
     } )[0];
-- 
2.43.0


From bcbf3074cf21ad6ceadcefe7bb141ef62348fa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:31 +0000
Subject: [PATCH 23/23] fix: partial_truth_table::add_bit shifted by -1 at
 every 64th bit

---
 libs/kitty/include/kitty/partial_truth_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/kitty/include/kitty/partial_truth_table.hpp b/libs/kitty/include/kitty/partial_truth_table.hpp
index 8565da2..7546851 100644
--- a/libs/kitty/include/kitty/partial_truth_table.hpp
+++ b/libs/kitty/include/kitty/partial_truth_table.hpp
@@ -178,7 +178,7 @@ struct partial_truth_table
     resize( _num_bits + 1 );
     if ( bit )
     {
-      _bits.back() |= (uint64_t)1 << ( ( _num_bits & 0x3f ) - 1 );
+      _bits.back() |= (uint64_t)1 << ( ( _num_bits - 1 ) & 0x3f );
     }
   }
 
-- 
2.43.0

