From a4a71c0a40010c55b85bfa4634fa4344ec1d8cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:40 +0000
Subject: [PATCH 01/23] fix: repeat CSP iterations until no node is removed

csp_solution_iteration ignored the result of csp_process_pixel, so solve_csp
stopped after one sweep and left inconsistent nodes available.
---
 lib/constraint_graph.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/constraint_graph.cpp b/lib/constraint_graph.cpp
index bf868bf..5e03d5c 100644
--- a/lib/constraint_graph.cpp
+++ b/lib/constraint_graph.cpp
@@ -315,7 +315,10 @@ __device__ BOOL csp_solution_iteration(
             ++node.pixel.x
         )
         {
-            csp_process_pixel(graph, node.pixel);
+            if (csp_process_pixel(graph, node.pixel))
+            {
+                changed = TRUE;
+            }
             pixel_available = FALSE;
             for (
                 node.disparity = 0;
-- 
2.43.0


From f9573191cc568a7614aa156196fff26f82513ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:40 +0000
Subject: [PATCH 02/23] fix: choose the best node when penalties are negative

A reparametrized penalty can be negative, so it cannot double as the marker of
a minimum that is not found yet.
---
 lib/labeling_finder.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/labeling_finder.cpp b/lib/labeling_finder.cpp
index eb25e4f..9e51544 100644
--- a/lib/labeling_finder.cpp
+++ b/lib/labeling_finder.cpp
@@ -265,7 +265,8 @@ __device__ struct ConstraintGraph* choose_best_node(
     struct Node node;
     node.pixel = pixel;
     node.disparity = 0;
-    FLOAT minimal_penalty = -1;
+    BOOL node_found = false;
+    FLOAT minimal_penalty = 0;
     for (
         node.disparity = 0;
         node.pixel.x + node.disparity < graph->disparity_graph->left.width
@@ -278,9 +279,10 @@ __device__ struct ConstraintGraph* choose_best_node(
             continue;
         }
 
-        if (minimal_penalty < 0)
+        if (!node_found)
         {
             minimal_penalty = node_penalty(graph->disparity_graph, node);
+            node_found = true;
         }
         else {
             minimal_penalty = MIN(
-- 
2.43.0


From 3111642669a305e75dfaf60af7677dc97cda9002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:40 +0000
Subject: [PATCH 03/23] fix: report a pixel with two labels

The search stopped at the first available node, so build_disparity_map never
reached its check for the second one.
---
 lib/labeling_finder.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/labeling_finder.cpp b/lib/labeling_finder.cpp
index 9e51544..a67cc48 100644
--- a/lib/labeling_finder.cpp
+++ b/lib/labeling_finder.cpp
@@ -422,7 +422,6 @@ __device__ struct Image build_disparity_map(
                     result.data[pixel_index(&result, node.pixel)]
                         = node.disparity;
                     found = true;
-                    break;
                 }
             }
             if (!found)
-- 
2.43.0


From 6f61c1fb66831600c6febbfc2e0aa8cbe931e7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:56 +0000
Subject: [PATCH 04/23] fix: enumerate the existing edges of left neighbors

Penalties of edges were enumerated by the rule for right neighbors in both
horizontal directions, so edges to the left neighbor which exist were skipped
and ones which do not exist were counted.
---
 lib/labeling_finder.cpp  | 7 ++++++-
 lib/lowest_penalties.cpp | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/labeling_finder.cpp b/lib/labeling_finder.cpp
index a67cc48..cf0a61e 100644
--- a/lib/labeling_finder.cpp
+++ b/lib/labeling_finder.cpp
@@ -46,6 +46,7 @@ namespace finder
 {
 
 using sp::graph::disparity::NEIGHBORS_COUNT;
+using sp::indexing::checks::edge_exists;
 using sp::indexing::checks::neighborhood_exists_fast;
 using sp::indexing::neighbor_by_index;
 using sp::indexing::pixel_index;
@@ -116,7 +117,7 @@ __device__ FLOAT_ARRAY fetch_edge_available_penalties(
     {
         if (
             edge.node.disparity <= 1
-            || edge.neighbor.pixel.x == edge.node.pixel.x
+            || edge.neighbor.pixel.x <= edge.node.pixel.x
         )
         {
             initial_disparity = 0;
@@ -132,6 +133,10 @@ __device__ FLOAT_ARRAY fetch_edge_available_penalties(
             ++edge.neighbor.disparity
         )
         {
+            if (!edge_exists(graph, edge))
+            {
+                continue;
+            }
             result.push_back(edge_penalty(graph, edge) - minimal_penalty);
         }
     }
diff --git a/lib/lowest_penalties.cpp b/lib/lowest_penalties.cpp
index 8b3649b..54df3dd 100644
--- a/lib/lowest_penalties.cpp
+++ b/lib/lowest_penalties.cpp
@@ -33,6 +33,7 @@ namespace lowest_penalties
 {
 
 using sp::graph::disparity::NEIGHBORS_COUNT;
+using sp::indexing::checks::edge_exists;
 using sp::indexing::checks::neighborhood_exists_fast;
 using sp::indexing::neighbor_by_index;
 using sp::indexing::neighborhood_index;
@@ -154,7 +155,7 @@ __device__ FLOAT calculate_lowest_neighborhood_penalty_fast(
     {
         if (
             edge.node.disparity <= 1
-            || edge.neighbor.pixel.x == edge.node.pixel.x
+            || edge.neighbor.pixel.x <= edge.node.pixel.x
         )
         {
             initial_disparity = 0;
@@ -170,6 +171,10 @@ __device__ FLOAT calculate_lowest_neighborhood_penalty_fast(
             ++edge.neighbor.disparity
         )
         {
+            if (!edge_exists(graph, edge))
+            {
+                continue;
+            }
             minimal_penalty = MIN(
                 edge_penalty(graph, edge),
                 minimal_penalty
-- 
2.43.0


From e6f46e52a861f1ebb73955e69061592c983f4729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:59 +0000
Subject: [PATCH 05/23] fix: use the next best node when no labeling goes
 through the best one

Consistency of the remaining nodes does not guarantee that each of them belongs
to a labeling, so find_labeling could fail on a solvable problem.
---
 include/labeling_finder.hpp |  4 +++-
 lib/labeling_finder.cpp     | 24 ++++++++++++++++++------
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/include/labeling_finder.hpp b/include/labeling_finder.hpp
index 8d35b74..863c1e3 100644
--- a/include/labeling_finder.hpp
+++ b/include/labeling_finder.hpp
@@ -166,7 +166,9 @@ struct ConstraintGraph* find_labeling_cuda(
  *
  *   - execute sp::labeling::finder::choose_best_node to use the best node;
  *   - run sp::graph::constraint::solve_csp for the graph
- *   to remove inconsistent nodes and edges.
+ *   to remove inconsistent nodes and edges;
+ *   - if nothing is left, no labeling goes through the best node:
+ *   restore the other nodes and use the next best one.
  *
  * As the result,
  * we will have a graph,
diff --git a/lib/labeling_finder.cpp b/lib/labeling_finder.cpp
index cf0a61e..6fc14b7 100644
--- a/lib/labeling_finder.cpp
+++ b/lib/labeling_finder.cpp
@@ -51,6 +51,7 @@ using sp::indexing::checks::neighborhood_exists_fast;
 using sp::indexing::neighbor_by_index;
 using sp::indexing::pixel_index;
 using sp::types::BOOL;
+using sp::types::BOOL_ARRAY;
 using sp::types::Node;
 using sp::types::ULONG;
 using sp::types::ULONG_ARRAY;
@@ -361,13 +362,24 @@ __device__ struct ConstraintGraph* find_labeling(
     {
         for (ULONG y = 0; y < graph->disparity_graph->left.height; ++y)
         {
-            if (choose_best_node(graph, {x, y}) == nullptr)
+            for (BOOL solved = false; !solved;)
             {
-                return nullptr;
-            }
-            if (!solve_csp(graph))
-            {
-                return nullptr;
+                BOOL_ARRAY availability = graph->nodes_availability;
+                if (choose_best_node(graph, {x, y}) == nullptr)
+                {
+                    return nullptr;
+                }
+                struct Node best{{x, y}, 0};
+                while (!is_node_available(graph, best))
+                {
+                    ++best.disparity;
+                }
+                solved = solve_csp(graph);
+                if (!solved)
+                {
+                    graph->nodes_availability = availability;
+                    make_node_unavailable(graph, best);
+                }
             }
         }
     }
-- 
2.43.0


From c4b8c46340b440dfc11377227552ed840cfe0774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:36 +0000
Subject: [PATCH 06/23] fix: make concurrent access to availability of nodes
 free of data races

Jobs of solve_csp share the words of a packed std::vector<bool>, so an update
of one row could be lost together with an update of another one.
---
 include/types.hpp        |  5 ++++-
 lib/constraint_graph.cpp | 23 +++++++++++++++++++++--
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/include/types.hpp b/include/types.hpp
index c3952d8..f4fdf41 100644
--- a/include/types.hpp
+++ b/include/types.hpp
@@ -78,8 +78,11 @@ using BOOL = bool;
 /**
  * \brief Boolean array type alias
  * to use the same name on CPU and GPU.
+ *
+ * Elements are not packed as in `std::vector<bool>`,
+ * so different threads can modify different elements.
  */
-using BOOL_ARRAY = std::vector<BOOL>;
+using BOOL_ARRAY = std::vector<char>;
 
 const BOOL TRUE = true;
 const BOOL FALSE = false;
diff --git a/lib/constraint_graph.cpp b/lib/constraint_graph.cpp
index 5e03d5c..73bb444 100644
--- a/lib/constraint_graph.cpp
+++ b/lib/constraint_graph.cpp
@@ -117,6 +117,9 @@ __device__ void make_node_available(
     struct Node node
 )
 {
+    #ifdef _OPENMP
+    #pragma omp atomic write
+    #endif
     graph->nodes_availability[node_index(graph->disparity_graph, node)]
         = TRUE;
 }
@@ -126,6 +129,9 @@ __device__ void make_node_unavailable(
     struct Node node
 )
 {
+    #ifdef _OPENMP
+    #pragma omp atomic write
+    #endif
     graph->nodes_availability[node_index(graph->disparity_graph, node)]
         = FALSE;
 }
@@ -141,6 +147,9 @@ __device__ void make_all_nodes_unavailable(struct ConstraintGraph* graph)
         ++index
     )
     {
+        #ifdef _OPENMP
+        #pragma omp atomic write
+        #endif
         graph->nodes_availability[index] = FALSE;
     }
 }
@@ -150,9 +159,14 @@ __device__ BOOL is_node_available(
     struct Node node
 )
 {
-    return graph->nodes_availability[
+    BOOL available = FALSE;
+    #ifdef _OPENMP
+    #pragma omp atomic read
+    #endif
+    available = graph->nodes_availability[
         node_index(graph->disparity_graph, node)
     ];
+    return available;
 }
 
 __device__ BOOL is_edge_available(
@@ -250,7 +264,12 @@ __device__ BOOL check_nodes_left(const struct ConstraintGraph* graph)
         ++index
     )
     {
-        if (graph->nodes_availability[index])
+        BOOL available = FALSE;
+        #ifdef _OPENMP
+        #pragma omp atomic read
+        #endif
+        available = graph->nodes_availability[index];
+        if (available)
         {
             return TRUE;
         }
-- 
2.43.0


From 90c4c4e0af79206957a9a0a492398feed8b3e4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:29 +0000
Subject: [PATCH 07/23] fix: do not keep an image from a PGM file with
 redundant data

The stream was marked as failed, but the image was stored nevertheless.
---
 lib/pgm_io.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/pgm_io.cpp b/lib/pgm_io.cpp
index a833bd5..ed773f8 100644
--- a/lib/pgm_io.cpp
+++ b/lib/pgm_io.cpp
@@ -192,6 +192,10 @@ istream& operator>>(istream& in, PGM_IO& ppm_io)
     }
 
     PGM_IO::check_file_end(in);
+    if (in.fail())
+    {
+        return in;
+    }
 
     ppm_io.set_image(image);
 
-- 
2.43.0


From 03af4d7647ab56db5ff1d4c0849e6bc9eb127995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:29 +0000
Subject: [PATCH 08/23] fix: skip PGM comments which stick to an instruction

A comment goes from the # character to the end of the line, also when there is
no whitespace before the character.
---
 lib/pgm_io.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/lib/pgm_io.cpp b/lib/pgm_io.cpp
index ed773f8..a94a9ce 100644
--- a/lib/pgm_io.cpp
+++ b/lib/pgm_io.cpp
@@ -83,6 +83,14 @@ string PGM_IO::read_pgm_instruction(istream& in)
     {
         return "";
     }
+    if (current_input.find('#') != string::npos)
+    {
+        current_input.erase(current_input.find('#'));
+        if (in.good())
+        {
+            in.ignore(numeric_limits<streamsize>::max(), '\n');
+        }
+    }
     return current_input;
 }
 
@@ -91,7 +99,10 @@ bool PGM_IO::check_file_end(istream& in)
     char current_input;
     while (in.good() && !in.eof())
     {
-        in.get(current_input);
+        if (!in.get(current_input))
+        {
+            break;
+        }
         if (current_input == '#')
         {
             in.ignore(numeric_limits<streamsize>::max(), '\n');
-- 
2.43.0


From 7c17b9211f9a83cd2443ad44f1d0f3e8e4472317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:48 +0000
Subject: [PATCH 09/23] fix: fail gracefully on malformed numbers and sizes in
 PGM files

Numbers which do not fit the type threw out_of_range, huge sizes threw bad_alloc
or overflowed the size of the data so that pixels were written out of bounds,
zero width with huge height did not finish, signs and trailing characters were
accepted.
---
 lib/pgm_io.cpp | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/lib/pgm_io.cpp b/lib/pgm_io.cpp
index a94a9ce..80cf6bb 100644
--- a/lib/pgm_io.cpp
+++ b/lib/pgm_io.cpp
@@ -29,6 +29,7 @@
 #include <iostream>
 #include <limits>
 #include <memory>
+#include <stdexcept>
 #include <string>
 
 namespace sp::image
@@ -41,6 +42,7 @@ using std::invalid_argument;
 using std::ios;
 using std::ios_base;
 using std::isspace;
+using std::logic_error;
 using std::make_shared;
 using std::move;
 using std::numeric_limits;
@@ -48,6 +50,20 @@ using std::stoul;
 using std::streamsize;
 using std::string;
 
+/**
+ * \brief Convert an instruction to the number it consists of.
+ *
+ * In contrast to `stoul`, rejects signs and characters after the number.
+ */
+static ULONG parse_number(const string& instruction)
+{
+    if (instruction.find_first_not_of("0123456789") != string::npos)
+    {
+        throw invalid_argument("`" + instruction + "` is not a number.");
+    }
+    return stoul(instruction);
+}
+
 PGM_IO::PGM_IO(shared_ptr<struct Image> image) : image{move(image)}
 {
 }
@@ -168,11 +184,11 @@ istream& operator>>(istream& in, PGM_IO& ppm_io)
 
     try
     {
-        image->width = stoul(PGM_IO::read_pgm_instruction(in));
-        image->height = stoul(PGM_IO::read_pgm_instruction(in));
-        image->max_value = stoul(PGM_IO::read_pgm_instruction(in));
+        image->width = parse_number(PGM_IO::read_pgm_instruction(in));
+        image->height = parse_number(PGM_IO::read_pgm_instruction(in));
+        image->max_value = parse_number(PGM_IO::read_pgm_instruction(in));
     }
-    catch (invalid_argument&)
+    catch (logic_error&)
     {
         in.setstate(ios_base::failbit);
         return in;
@@ -183,7 +199,11 @@ istream& operator>>(istream& in, PGM_IO& ppm_io)
         in.setstate(ios_base::failbit);
         return in;
     }
-    image->data.resize(image->width * image->height);
+    if (image->width == 0 || image->height == 0)
+    {
+        in.setstate(ios_base::failbit);
+        return in;
+    }
 
     for (ULONG y = 0; y < image->height; ++y)
     {
@@ -191,10 +211,11 @@ istream& operator>>(istream& in, PGM_IO& ppm_io)
         {
             try
             {
-                image->data[pixel_index(image.get(), {x, y})] =
-                    stoul(PGM_IO::read_pgm_instruction(in));
+                image->data.push_back(
+                    parse_number(PGM_IO::read_pgm_instruction(in))
+                );
             }
-            catch (invalid_argument&)
+            catch (logic_error&)
             {
                 in.setstate(ios_base::failbit);
                 return in;
-- 
2.43.0


From ffc4364b23890f45cbc41b627b7471626165a629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:29 +0000
Subject: [PATCH 10/23] fix: return non-zero exit code when the disparity map
 is not written

Wrong arguments, wrong images and failures to write the output were reported as
success, the last of them without any message.
---
 lib/main.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/main.cpp b/lib/main.cpp
index 583277d..bc55a0c 100644
--- a/lib/main.cpp
+++ b/lib/main.cpp
@@ -240,14 +240,24 @@ int main(int argc, char* argv[]) try
             std::ofstream image_file(vm["output-image"].as<std::string>());
             sp::image::PGM_IO pgm_io{result};
             image_file << pgm_io;
+            image_file.close();
+            if (!image_file)
+            {
+                throw std::runtime_error(
+                    "Unable to write to file `"
+                    + vm["output-image"].as<std::string>() + "`."
+                );
+            }
         }
         catch (std::invalid_argument& e)
         {
             std::cerr << "Invalid argument: " << e.what() << std::endl;
+            return 1;
         }
         catch (std::logic_error& e)
         {
             std::cerr << "Logic error: " << e.what() << std::endl;
+            return 1;
         }
     }
     else if (vm.count("left-image") == 0 || vm.count("right-image") == 0)
@@ -255,12 +265,14 @@ int main(int argc, char* argv[]) try
         std::cerr
             << "You should specify both left and right image."
             << std::endl;
+        return 1;
     }
     else if (vm.count("output-image") == 0)
     {
         std::cerr
             << "You should specify the output image path."
             << std::endl;
+        return 1;
     }
     else
     {
-- 
2.43.0


From 74c8ab11d1a3032cd17aadec67527f3511589b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:29 +0000
Subject: [PATCH 11/23] fix: show the help message

The branch which prints it was unreachable.
---
 lib/main.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/main.cpp b/lib/main.cpp
index bc55a0c..5bb8a81 100644
--- a/lib/main.cpp
+++ b/lib/main.cpp
@@ -76,6 +76,12 @@ int main(int argc, char* argv[]) try
 
     boost::program_options::notify(vm);
 
+    if (argc == 1 || vm.count("help") != 0)
+    {
+        std::cout << desc;
+        return 0;
+    }
+
     if (
         vm.count("output-image") == 1
         && vm.count("left-image") == 1
-- 
2.43.0


From cc1f11f2e562248f896666c006dee9135ab51ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:29 +0000
Subject: [PATCH 12/23] fix: do not truncate fractional weights

Weights were read as unsigned integers: 0.5 turned into 0, -1 into a huge
number.
---
 lib/main.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/lib/main.cpp b/lib/main.cpp
index 5bb8a81..99a4abf 100644
--- a/lib/main.cpp
+++ b/lib/main.cpp
@@ -11,6 +11,8 @@
 #include <pgm_io.hpp>
 
 #include <algorithm>
+#include <cmath>
+#include <cstddef>
 #include <fstream>
 #include <iostream>
 #include <memory>
@@ -18,6 +20,7 @@
 #include <string>
 
 struct sp::image::Image read_image(const std::string& image_path);
+sp::types::FLOAT read_weight(const std::string& text);
 
 enum Parallelism
 {
@@ -156,14 +159,14 @@ int main(int argc, char* argv[]) try
             sp::types::FLOAT cleanness = 1;
             if (vm.count("cleanness") == 1)
             {
-                cleanness = std::stoul(
+                cleanness = read_weight(
                     vm["cleanness"].as<std::string>()
                 );
             }
             sp::types::FLOAT smoothness = 1;
             if (vm.count("smoothness") == 1)
             {
-                smoothness = std::stoul(
+                smoothness = read_weight(
                     vm["smoothness"].as<std::string>()
                 );
             }
@@ -325,3 +328,14 @@ struct sp::image::Image read_image(const std::string& image_path)
     }
     return *pgm_io.get_image();
 }
+
+sp::types::FLOAT read_weight(const std::string& text)
+{
+    std::size_t length = 0;
+    sp::types::FLOAT weight = std::stod(text, &length);
+    if (length != text.size() || !std::isfinite(weight))
+    {
+        throw std::invalid_argument("`" + text + "` is not a correct weight.");
+    }
+    return weight;
+}
-- 
2.43.0


From 6ec9a93d0a9db61759b9077671e00ada3d1fb9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:02 +0000
Subject: [PATCH 13/23] fix: synchronize OpenCL work-items by launches of the
 kernel

Work-items reset the shared flags while others were setting or testing them:
the loop diverged at the barrier and removals by one work-group could be
forgotten by another one. Reset the flag by the host before each launch.
---
 lib/gpu_csp.cpp  |  7 ++++---
 lib/solve_csp.cl | 22 +++++-----------------
 2 files changed, 9 insertions(+), 20 deletions(-)

diff --git a/lib/gpu_csp.cpp b/lib/gpu_csp.cpp
index 162b818..8da4396 100644
--- a/lib/gpu_csp.cpp
+++ b/lib/gpu_csp.cpp
@@ -69,7 +69,7 @@ BOOL csp_solution_cl(
 
     vector<int> tmp(graph->nodes_availability.begin(), graph->nodes_availability.end());
     compute::vector<int> nodes_availability(tmp, problem->queue);
-    compute::vector<int> changed({0, 0}, problem->queue);
+    compute::vector<int> changed({0}, problem->queue);
 
     kernel csp_iteration = problem->program.create_kernel("csp_iteration");
     csp_iteration.set_args(
@@ -124,6 +124,7 @@ BOOL csp_solution_cl(
 
             do
             {
+                changed[0] = 0;
                 queue.enqueue_1d_range_kernel(
                     csp_iteration,
                     0,
@@ -132,7 +133,7 @@ BOOL csp_solution_cl(
                 );
 
                 queue.finish();
-            } while (changed[1] != 0);
+            } while (changed[0] != 0);
         }
     }
 
@@ -140,7 +141,7 @@ BOOL csp_solution_cl(
         nodes_availability.begin(),
         nodes_availability.end()
     );
-    return changed[1] != 0;
+    return changed[0] != 0;
 }
 
 }
diff --git a/lib/solve_csp.cl b/lib/solve_csp.cl
index 3b8b3c6..f040651 100644
--- a/lib/solve_csp.cl
+++ b/lib/solve_csp.cl
@@ -54,21 +54,13 @@ void populate_structures_gpu(
 void csp_solution_iteration_gpu(
     struct ConstraintGraph* constraint_graph,
     struct Pixel pixel,
-    __global int* changed_step,
-    __global int* changed_any
+    __global int* changed
 )
 {
-    do
+    if (csp_process_pixel(constraint_graph, pixel))
     {
-        *changed_step = 0;
-        barrier(CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE);
-        if (csp_process_pixel(constraint_graph, pixel))
-        {
-            *changed_step = 1;
-            *changed_any = 1;
-        }
-        barrier(CLK_LOCAL_MEM_FENCE | CLK_GLOBAL_MEM_FENCE);
-    } while (*changed_step);
+        *changed = 1;
+    }
 }
 
 __kernel void csp_iteration(
@@ -113,9 +105,6 @@ __kernel void csp_iteration(
         smoothness
     );
 
-    atomic_and(&changed[0], 0);
-    atomic_and(&changed[1], 0);
-
     struct Pixel pixel;
     pixel.x = thread_id % constraint_graph.disparity_graph->right.width;
     pixel.y = thread_id / constraint_graph.disparity_graph->right.width;
@@ -123,8 +112,7 @@ __kernel void csp_iteration(
     csp_solution_iteration_gpu(
         &constraint_graph,
         pixel,
-        &changed[0],
-        &changed[1]
+        changed
     );
 }
 
-- 
2.43.0


From b473e6625ece1e91fb057baddf8d3917b1981318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:28 +0000
Subject: [PATCH 14/23] fix: use the next best node with OpenCL too

find_labeling_cl should perform the same actions as find_labeling, but ended
with no labeling when no one goes through the best node of a pixel.
---
 include/gpu_csp.hpp     |  6 +++-
 lib/gpu_csp.cpp         | 61 +++++++++++++++++++++++++++++++++--------
 lib/labeling_finder.cpp |  3 +-
 3 files changed, 55 insertions(+), 15 deletions(-)

diff --git a/include/gpu_csp.hpp b/include/gpu_csp.hpp
index 1427e61..b688daa 100644
--- a/include/gpu_csp.hpp
+++ b/include/gpu_csp.hpp
@@ -58,12 +58,16 @@ void build_csp_program(struct Problem* problem);
 void prepare_problem(struct ConstraintGraph* graph, struct Problem* problem);
 
 /**
- * \brief Remove all nodes that have no any edges at least to one neighbor
+ * \brief For each pixel, choose the best node
+ * which does not make the others inconsistent,
+ * remove all nodes that have no any edges at least to one neighbor
  * until there is nothing to remove
  * (anything is removed or all nodes have neighbors),
  * and save the nodes availability data
  * (sp::graph::constraint::ConstraintGraph::nodes_availability)
  * into the input sp::graph::constraint::ConstraintGraph.
+ *
+ * \return `true` if a labeling was found, `false` otherwise.
  */
 BOOL csp_solution_cl(
     struct ConstraintGraph* graph,
diff --git a/lib/gpu_csp.cpp b/lib/gpu_csp.cpp
index 8da4396..65fcc13 100644
--- a/lib/gpu_csp.cpp
+++ b/lib/gpu_csp.cpp
@@ -1,5 +1,6 @@
 #include <compile_cl.hpp>
 #include <gpu_csp.hpp>
+#include <indexing.hpp>
 
 #include <iostream>
 #include <string>
@@ -13,6 +14,9 @@ namespace compute = boost::compute;
 using boost::compute::command_queue;
 using boost::compute::kernel;
 using boost::compute::system;
+using sp::indexing::node_index;
+using sp::types::FALSE;
+using sp::types::TRUE;
 using std::cout;
 using std::endl;
 using std::string;
@@ -119,21 +123,54 @@ BOOL csp_solution_cl(
         {
             choose_best_node_gpu.set_arg(x_index, x);
             choose_best_node_gpu.set_arg(y_index, y);
-            queue.enqueue_task(choose_best_node_gpu);
-            queue.finish();
-
+            ULONG first = node_index(graph->disparity_graph, {{x, y}, 0});
+            ULONG last = first + graph->disparity_graph->disparity_levels;
+            ULONG best = last;
             do
             {
-                changed[0] = 0;
-                queue.enqueue_1d_range_kernel(
-                    csp_iteration,
-                    0,
-                    graph->disparity_graph->right.data.size(),
-                    0
+                compute::copy(
+                    nodes_availability.begin(),
+                    nodes_availability.end(),
+                    tmp.begin(),
+                    problem->queue
                 );
-
+                queue.enqueue_task(choose_best_node_gpu);
                 queue.finish();
-            } while (changed[0] != 0);
+
+                best = first;
+                while (best < last && nodes_availability[best] == 0)
+                {
+                    ++best;
+                }
+                if (best == last)
+                {
+                    return FALSE;
+                }
+
+                do
+                {
+                    changed[0] = 0;
+                    queue.enqueue_1d_range_kernel(
+                        csp_iteration,
+                        0,
+                        graph->disparity_graph->right.data.size(),
+                        0
+                    );
+
+                    queue.finish();
+                } while (changed[0] != 0);
+
+                if (nodes_availability[best] == 0)
+                {
+                    tmp[best] = 0;
+                    compute::copy(
+                        tmp.begin(),
+                        tmp.end(),
+                        nodes_availability.begin(),
+                        problem->queue
+                    );
+                }
+            } while (tmp[best] == 0);
         }
     }
 
@@ -141,7 +178,7 @@ BOOL csp_solution_cl(
         nodes_availability.begin(),
         nodes_availability.end()
     );
-    return changed[0] != 0;
+    return TRUE;
 }
 
 }
diff --git a/lib/labeling_finder.cpp b/lib/labeling_finder.cpp
index 6fc14b7..304cb85 100644
--- a/lib/labeling_finder.cpp
+++ b/lib/labeling_finder.cpp
@@ -336,8 +336,7 @@ struct ConstraintGraph* find_labeling_cl(
     struct gpu::Problem problem;
     build_csp_program(&problem);
     prepare_problem(graph, &problem);
-    gpu::csp_solution_cl(graph, &problem);
-    return graph;
+    return gpu::csp_solution_cl(graph, &problem) ? graph : nullptr;
 }
 #endif
 
-- 
2.43.0


From 2ef7d4424e4850cba83fecebf93890cc2fef7855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:04 +0000
Subject: [PATCH 15/23] fix: check existence of an edge before access to its
 penalties

is_edge_available is documented to check existence of the edge, but read the
arrays out of bounds for an edge which does not exist.
---
 lib/constraint_graph.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/constraint_graph.cpp b/lib/constraint_graph.cpp
index 73bb444..168210e 100644
--- a/lib/constraint_graph.cpp
+++ b/lib/constraint_graph.cpp
@@ -175,12 +175,12 @@ __device__ BOOL is_edge_available(
 )
 {
     return
-        (edge_penalty(graph->disparity_graph, edge)
+        edge_exists(graph->disparity_graph, edge)
+        && (edge_penalty(graph->disparity_graph, edge)
          - lowest_neighborhood_penalty(graph->lowest_penalties, edge)
          <= graph->threshold)
         && is_node_available(graph, edge.node)
-        && is_node_available(graph, edge.neighbor)
-        && edge_exists(graph->disparity_graph, edge);
+        && is_node_available(graph, edge.neighbor);
 }
 
 __device__ BOOL should_remove_node(
-- 
2.43.0


From e7b2be093b5130b114f89de7670aaf469bf38d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:42 +0000
Subject: [PATCH 16/23] fix: write PGM numbers independently of the format of
 the stream

Flags (std::hex, std::showpos...) and the grouping of a locale changed
numbers of the written file, so that it could not be read back.
---
 lib/pgm_io.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/pgm_io.cpp b/lib/pgm_io.cpp
index 80cf6bb..3e90026 100644
--- a/lib/pgm_io.cpp
+++ b/lib/pgm_io.cpp
@@ -49,6 +49,7 @@ using std::numeric_limits;
 using std::stoul;
 using std::streamsize;
 using std::string;
+using std::to_string;
 
 /**
  * \brief Convert an instruction to the number it consists of.
@@ -143,13 +144,13 @@ ostream& operator<<(ostream& out, const PGM_IO& ppm_io)
     }
     shared_ptr<struct Image> image = ppm_io.get_image();
     out << PGM_IO::FORMAT_CODE << endl;
-    out << image->width << " " << image->height << endl;
-    out << image->max_value << endl;
+    out << to_string(image->width) << " " << to_string(image->height) << endl;
+    out << to_string(image->max_value) << endl;
     for (ULONG y = 0; y < image->height; ++y)
     {
         for (ULONG x = 0; x < image->width; ++x)
         {
-            out << image->data[pixel_index(image.get(), {x, y})];
+            out << to_string(image->data[pixel_index(image.get(), {x, y})]);
             if (x == 0 || (x + 1) % PGM_IO::MAX_NUMBERS_PER_ROW != 0)
             {
                 if (x + 1 < image->width)
-- 
2.43.0


From 51b18e5677fc515a1058a3492f2e8403e2f1828c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:29 +0000
Subject: [PATCH 17/23] fix: do not fail at the end of a PGM file when the
 stream throws on failures

Reading the character after the last one set failbit, which was cleared
afterwards, but it is an exception when they are enabled for failures, so that
a correct file was refused.
---
 lib/pgm_io.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/pgm_io.cpp b/lib/pgm_io.cpp
index 3e90026..e12e7ba 100644
--- a/lib/pgm_io.cpp
+++ b/lib/pgm_io.cpp
@@ -116,10 +116,11 @@ bool PGM_IO::check_file_end(istream& in)
     char current_input;
     while (in.good() && !in.eof())
     {
-        if (!in.get(current_input))
+        if (in.peek() == istream::traits_type::eof())
         {
             break;
         }
+        in.get(current_input);
         if (current_input == '#')
         {
             in.ignore(numeric_limits<streamsize>::max(), '\n');
-- 
2.43.0


From d64d32c47e2af0010d3a728152bc3e112f97ab2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:38 +0000
Subject: [PATCH 18/23] fix: synchronize CUDA threads by launches of the kernel

---
 lib/cuda_csp.cu  | 58 ++++++++++++++++++++++++++++++++----------------
 lib/solve_csp.cu | 14 +++---------
 2 files changed, 42 insertions(+), 30 deletions(-)

diff --git a/lib/cuda_csp.cu b/lib/cuda_csp.cu
index 06120ca..caecdb2 100644
--- a/lib/cuda_csp.cu
+++ b/lib/cuda_csp.cu
@@ -179,6 +179,7 @@ void csp_solution_cuda(
     struct CUDAProblem* problem
 )
 {
+    int changed = 0;
     for (ULONG x = 0; x < graph->disparity_graph->right.width; ++x)
     {
         for (ULONG y = 0; y < graph->disparity_graph->right.height; ++y)
@@ -207,28 +208,47 @@ void csp_solution_cuda(
                 y
             );
 
-            csp_iteration_cuda<<<
-                graph->disparity_graph->right.width,
-                graph->disparity_graph->right.height
-            >>>(
+            do
+            {
+                changed = 0;
+                cdpErrchk(cudaMemcpy(
+                    problem->changed,
+                    &changed,
+                    sizeof(changed),
+                    cudaMemcpyHostToDevice)
+                );
 
-                problem->nodes_availability,
+                csp_iteration_cuda<<<
+                    graph->disparity_graph->right.width,
+                    graph->disparity_graph->right.height
+                >>>(
 
-                problem->changed,
-                problem->left_image,
-                problem->right_image,
-                problem->min_penalties_pixels,
-                problem->min_penalties_edges,
-                problem->reparametrization,
+                    problem->nodes_availability,
 
-                graph->disparity_graph->right.height,
-                graph->disparity_graph->right.width,
-                graph->disparity_graph->right.max_value,
-                graph->disparity_graph->disparity_levels,
-                graph->threshold,
-                graph->disparity_graph->cleanness,
-                graph->disparity_graph->smoothness
-            );
+                    problem->changed,
+                    problem->left_image,
+                    problem->right_image,
+                    problem->min_penalties_pixels,
+                    problem->min_penalties_edges,
+                    problem->reparametrization,
+
+                    graph->disparity_graph->right.height,
+                    graph->disparity_graph->right.width,
+                    graph->disparity_graph->right.max_value,
+                    graph->disparity_graph->disparity_levels,
+                    graph->threshold,
+                    graph->disparity_graph->cleanness,
+                    graph->disparity_graph->smoothness
+                );
+                cudaCheckError();
+
+                cdpErrchk(cudaMemcpy(
+                    &changed,
+                    problem->changed,
+                    sizeof(changed),
+                    cudaMemcpyDeviceToHost)
+                );
+            } while (changed != 0);
         }
     }
     cudaCheckError();
diff --git a/lib/solve_csp.cu b/lib/solve_csp.cu
index e5617eb..1d0d15b 100644
--- a/lib/solve_csp.cu
+++ b/lib/solve_csp.cu
@@ -33,7 +33,6 @@
 
 #include <cuda.h>
 #include <cuda_runtime.h>
-#include <cooperative_groups.h>
 
 #if !defined(__CUDA_ARCH__)
 using sp::types::ULONG;
@@ -100,17 +99,10 @@ __device__ void csp_solution_iteration_gpu(
     int* changed
 )
 {
-    cooperative_groups::grid_group g = cooperative_groups::this_grid();
-    do
+    if (csp_process_pixel(constraint_graph, pixel))
     {
-        *changed = 0;
-        g.sync();
-        if (csp_process_pixel(constraint_graph, pixel))
-        {
-            *changed = 1;
-        }
-        g.sync();
-    } while (*changed);
+        *changed = 1;
+    }
 }
 
 __global__ void csp_iteration_cuda(
-- 
2.43.0


From 61cfb2ed7ea717fab367d50eb25d90ccc31178ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:38 +0000
Subject: [PATCH 19/23] fix: find a labeling on CPU when CUDA reaches a dead
 end

---
 lib/labeling_finder.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/labeling_finder.cpp b/lib/labeling_finder.cpp
index 304cb85..699edfd 100644
--- a/lib/labeling_finder.cpp
+++ b/lib/labeling_finder.cpp
@@ -53,6 +53,7 @@ using sp::indexing::pixel_index;
 using sp::types::BOOL;
 using sp::types::BOOL_ARRAY;
 using sp::types::Node;
+using sp::types::TRUE;
 using sp::types::ULONG;
 using sp::types::ULONG_ARRAY;
 #ifdef USE_OPENCL
@@ -62,6 +63,7 @@ using gpu::csp_solution_cl;
 using gpu::csp_solution_cuda;
 #endif
 using std::back_inserter;
+using std::find;
 using std::logic_error;
 using std::merge;
 using std::sort;
@@ -345,10 +347,22 @@ struct ConstraintGraph* find_labeling_cuda(
     struct ConstraintGraph* graph
 )
 {
+    BOOL_ARRAY availability = graph->nodes_availability;
     struct gpu::CUDAProblem problem;
     prepare_problem(graph, &problem);
     gpu::csp_solution_cuda(graph, &problem);
     free_problem(graph, &problem);
+    if (
+        find(
+            graph->nodes_availability.begin(),
+            graph->nodes_availability.end(),
+            TRUE
+        ) == graph->nodes_availability.end()
+    )
+    {
+        graph->nodes_availability = availability;
+        return find_labeling(graph);
+    }
     return graph;
 }
 #endif
-- 
2.43.0


From 7040f523ab494e2e5780436a75e924e29e0f8e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:38 +0000
Subject: [PATCH 20/23] fix: process images with more than 1024 rows with CUDA

---
 lib/cuda_csp.cu  | 14 ++++++++++----
 lib/solve_csp.cu |  6 +++++-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/lib/cuda_csp.cu b/lib/cuda_csp.cu
index caecdb2..288a4bd 100644
--- a/lib/cuda_csp.cu
+++ b/lib/cuda_csp.cu
@@ -52,6 +52,11 @@ namespace gpu
 
 using std::vector;
 
+/**
+ * \brief Maximal number of threads in a block.
+ */
+const unsigned MAX_THREADS = 1024;
+
 void prepare_problem(struct ConstraintGraph* graph, struct CUDAProblem* problem)
 {
     vector<unsigned> left_image(
@@ -180,6 +185,10 @@ void csp_solution_cuda(
 )
 {
     int changed = 0;
+    const unsigned height = graph->disparity_graph->right.height;
+    const unsigned width = graph->disparity_graph->right.width;
+    const dim3 threads(height < MAX_THREADS ? height : MAX_THREADS);
+    const dim3 blocks(width, (height + threads.x - 1) / threads.x);
     for (ULONG x = 0; x < graph->disparity_graph->right.width; ++x)
     {
         for (ULONG y = 0; y < graph->disparity_graph->right.height; ++y)
@@ -218,10 +227,7 @@ void csp_solution_cuda(
                     cudaMemcpyHostToDevice)
                 );
 
-                csp_iteration_cuda<<<
-                    graph->disparity_graph->right.width,
-                    graph->disparity_graph->right.height
-                >>>(
+                csp_iteration_cuda<<<blocks, threads>>>(
 
                     problem->nodes_availability,
 
diff --git a/lib/solve_csp.cu b/lib/solve_csp.cu
index 1d0d15b..303e17a 100644
--- a/lib/solve_csp.cu
+++ b/lib/solve_csp.cu
@@ -147,7 +147,11 @@ __global__ void csp_iteration_cuda(
 
     struct Pixel pixel;
     pixel.x = blockIdx.x;
-    pixel.y = threadIdx.x;
+    pixel.y = blockIdx.y * blockDim.x + threadIdx.x;
+    if (pixel.y >= height)
+    {
+        return;
+    }
 
     csp_solution_iteration_gpu(
         &constraint_graph,
-- 
2.43.0


From b6a4b54f06b5256f482a0ea6a4578c7937d69782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:38 +0000
Subject: [PATCH 21/23] fix: return non-zero exit code when CUDA fails

---
 lib/cuda_csp.cu | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/cuda_csp.cu b/lib/cuda_csp.cu
index 288a4bd..5803cb2 100644
--- a/lib/cuda_csp.cu
+++ b/lib/cuda_csp.cu
@@ -25,17 +25,17 @@
 #include <cuda_csp.hpp>
 #include <solve_csp.hpp>
 
-#include <cassert>
 #include <cstdio>
+#include <cstdlib>
 #include <vector>
 
 #define cdpErrchk(ans) { cdpAssert((ans), __FILE__, __LINE__); }
-__host__ __device__ void cdpAssert(cudaError_t code, const char *file, int line)
+void cdpAssert(cudaError_t code, const char *file, int line)
 {
    if (code != cudaSuccess)
    {
       printf("GPU kernel assert: %s %s %d\n", cudaGetErrorString(code), file, line);
-      assert(0);
+      exit(EXIT_FAILURE);
    }
 }
 
@@ -43,7 +43,7 @@ __host__ __device__ void cdpAssert(cudaError_t code, const char *file, int line)
  cudaError_t e=cudaGetLastError();                                 \
  if(e!=cudaSuccess) {                                              \
    printf("Cuda failure %s:%d: '%s'\n",__FILE__,__LINE__,cudaGetErrorString(e));           \
-   exit(0); \
+   exit(EXIT_FAILURE); \
  }                                                                 \
 }
 
-- 
2.43.0


From 7382d2e0d55e5fd14d3ccb3e48023aaed3983278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:26 +0000
Subject: [PATCH 22/23] fix: accept positive weights below the epsilon

Weights of 1e-17 are greater than zero, but were refused as if both were zero.
---
 lib/disparity_graph.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lib/disparity_graph.cpp b/lib/disparity_graph.cpp
index 8cf2086..b5880d5 100644
--- a/lib/disparity_graph.cpp
+++ b/lib/disparity_graph.cpp
@@ -151,10 +151,7 @@ DisparityGraph::DisparityGraph(
             + "."
         );
     }
-    if (
-        this->cleanness < std::numeric_limits<FLOAT>::epsilon()
-        && this->smoothness < std::numeric_limits<FLOAT>::epsilon()
-    )
+    if (this->cleanness <= 0 && this->smoothness <= 0)
     {
         throw std::invalid_argument(
             "Either cleanness or smoothness, or both, "
-- 
2.43.0


From fa4ce8ae62f3dde55ecae2166db8e4bf96aad6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:45 +0000
Subject: [PATCH 23/23] fix: refuse levels with other characters behind the
 number

The number of disparity levels 2.5 was read as 2, and -18446744073709551614
as 2, too.
---
 lib/main.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lib/main.cpp b/lib/main.cpp
index 99a4abf..a7c3765 100644
--- a/lib/main.cpp
+++ b/lib/main.cpp
@@ -21,6 +21,7 @@
 
 struct sp::image::Image read_image(const std::string& image_path);
 sp::types::FLOAT read_weight(const std::string& text);
+sp::types::ULONG read_levels(const std::string& text);
 
 enum Parallelism
 {
@@ -152,7 +153,7 @@ int main(int argc, char* argv[]) try
             }
             else
             {
-                disparity_levels = std::stoul(
+                disparity_levels = read_levels(
                     vm["disparity-levels"].as<std::string>()
                 );
             }
@@ -329,6 +330,19 @@ struct sp::image::Image read_image(const std::string& image_path)
     return *pgm_io.get_image();
 }
 
+sp::types::ULONG read_levels(const std::string& text)
+{
+    std::size_t length = 0;
+    sp::types::ULONG levels = std::stoul(text, &length);
+    if (length != text.size() || text.find('-') != std::string::npos)
+    {
+        throw std::invalid_argument(
+            "`" + text + "` is not a correct number of disparity levels."
+        );
+    }
+    return levels;
+}
+
 sp::types::FLOAT read_weight(const std::string& text)
 {
     std::size_t length = 0;
-- 
2.43.0

