From 1db0773650c18212cba6ce75cf0b304dcab765a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:32 +0000
Subject: [PATCH 01/29] fix: do not drop facets and ridges whose eliminated
 coordinates look like the face at infinity

The check for the trivial row 0 <= 1 ran on coordinates from which the zero
columns were already eliminated, so genuine facets and ridges of
low-dimensional polyhedra were removed (e.g. the vertices 0, 1, 2 on a line
lost the facet x <= 2). It now happens where the result of the double
description is complete, in the original coordinates.
---
 src/algorithm_fourier_motzkin_elimination.cpp | 20 -------------------
 src/method_double_description.cpp             |  5 +++++
 2 files changed, 5 insertions(+), 20 deletions(-)

diff --git a/src/algorithm_fourier_motzkin_elimination.cpp b/src/algorithm_fourier_motzkin_elimination.cpp
index c4746d1..f85f082 100644
--- a/src/algorithm_fourier_motzkin_elimination.cpp
+++ b/src/algorithm_fourier_motzkin_elimination.cpp
@@ -314,24 +314,6 @@ namespace
       std::tie(matrix, R) = updateSystem(matrix, R, index, indices, s, pnrs);
    }
 
-   template <typename Integer>
-   void detectBadRow(Matrix<Integer>& matrix)
-   {
-      for ( std::size_t j = 0; j < matrix.size(); ++j )
-      {
-         const auto& row = matrix[j];
-         bool possible = true;
-         for ( std::size_t k = 0; k + 1 < row.size() && possible; ++k )
-         {
-            possible = (row[k] == 0);
-         }
-         if ( possible && row.back() == -1 )
-         {
-            matrix.erase(matrix.begin() + static_cast<typename Matrix<Integer>::difference_type>(j));
-         }
-      }
-   }
-
    template <typename Bitset, typename Integer>
    void phaseTwo(Matrix<Integer>& matrix, const Vertices<Integer>& vertices)
    {
@@ -348,7 +330,6 @@ namespace
          }, std::chrono::seconds(2));
          projection(matrix, R, vertex, i);
       }
-      detectBadRow(matrix);
    }
 
    template <typename Bitset, typename Integer>
@@ -360,7 +341,6 @@ namespace
       for ( std::size_t i = d; i < vertices.size(); ++i )
       {
          auto facets = extractFacets(matrix, vertices, i);
-         detectBadRow(facets);
          if ( !facets.empty() )
          {
             matrix = facets;
diff --git a/src/method_double_description.cpp b/src/method_double_description.cpp
index 0315197..b210df2 100644
--- a/src/method_double_description.cpp
+++ b/src/method_double_description.cpp
@@ -145,6 +145,11 @@ namespace
       }
       // computation part 2: identifying inequalities
       auto inequalities = algorithm::fourierMotzkinElimination(vertices);
+      // the face at infinity of an unbounded polyhedron (0 <= 1) is not part of the outer description
+      inequalities.erase(std::remove_if(inequalities.begin(), inequalities.end(), [](const Inequality<Integer>& row)
+      {
+         return row.back() == -1 && std::all_of(row.cbegin(), row.cend() - 1, [](const Integer& a) { return a == 0; });
+      }), inequalities.end());
       inequalities = algorithm::classes(inequalities, reduced_maps, tag::facet{});
       // output
       const auto is_reduced = !maps.empty();
-- 
2.43.0


From 1ce64ab41f1b3e3dd5f65b46b9877132e87233ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:32 +0000
Subject: [PATCH 02/29] fix: do not print the face at infinity as an inequality
 and handle single points

Adjacency decomposition printed the trivial row 0 <= 1 for unbounded polyhedra
and crashed (no vertex lies on that face) for a polytope that is a single point.
---
 src/algorithm_rotation.cpp |  5 ++++-
 src/list.cpp               | 16 +++++++++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/algorithm_rotation.cpp b/src/algorithm_rotation.cpp
index 53b69b0..a7c4dac 100644
--- a/src/algorithm_rotation.cpp
+++ b/src/algorithm_rotation.cpp
@@ -86,7 +86,10 @@ namespace
    Inequalities<Integer> getRidges(const Vertices<Integer>& vertices, const Facet<Integer>& facet)
    {
       const auto vertices_on_facet = verticesWithZeroDistance(vertices, facet);
-      assert( !vertices_on_facet.empty() );
+      if ( vertices_on_facet.empty() ) // the only face of a single point is the empty face.
+      {
+         return {};
+      }
       return algorithm::fourierMotzkinElimination(vertices_on_facet);
    }
 
diff --git a/src/list.cpp b/src/list.cpp
index 9b36891..f8b8eed 100644
--- a/src/list.cpp
+++ b/src/list.cpp
@@ -8,6 +8,7 @@
 #include "list.h"
 #undef COMPILE_TEMPLATE_LIST
 
+#include <algorithm>
 #include <cstddef>
 #include <iostream>
 #include <sstream>
@@ -35,6 +36,16 @@ using namespace panda;
    #endif
 #endif
 
+namespace
+{
+   /// The face at infinity of an unbounded polyhedron (0 <= 1) leads to adjacent facets, but it is not part of the outer description.
+   template <typename Integer>
+   bool isFaceAtInfinity(const Row<Integer>& row)
+   {
+      return row.size() > 1 && row.back() == -1 && std::all_of(row.cbegin(), row.cend() - 1, [](const Integer& a) { return a == 0; });
+   }
+}
+
 template <typename Integer, typename TagType>
 void panda::List<Integer, TagType>::put(const Matrix<Integer>& matrix) const
 {
@@ -68,7 +79,10 @@ void panda::List<Integer, TagType>::put(const Row<Integer>& row) const
    {
       if ( std::is_same<TagType, tag::facet>::value )
       {
-         algorithm::prettyPrintln(std::cout, row, names, "<=");
+         if ( !isFaceAtInfinity(row) )
+         {
+            algorithm::prettyPrintln(std::cout, row, names, "<=");
+         }
       }
       else
       {
-- 
2.43.0


From d4a41a471a80ef34e497f98c79847d250798db98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 03/29] fix: restrict maps to the affine hull without losing
 terms or scale

---
 src/algorithm_map_operations.cpp | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/algorithm_map_operations.cpp b/src/algorithm_map_operations.cpp
index 1da5567..49e3875 100644
--- a/src/algorithm_map_operations.cpp
+++ b/src/algorithm_map_operations.cpp
@@ -119,10 +119,13 @@ namespace
    }
 
    /// Use equation to get eliminated index back to zero.
+   /// All images are scaled by the same positive factor, as the coefficient at the index may differ from +-1.
    template <typename Integer>
    void subtractEquation(Map& map, const Index& index, const Equation<Integer>& equation)
    {
       assert( equation[index] != 0 );
+      const auto sign = (equation[index] < 0) ? -1 : 1;
+      const auto scale = sign * static_cast<Factor>(equation[index]);
       for ( auto& image : map )
       {
          Image new_image;
@@ -134,16 +137,16 @@ namespace
                {
                   if ( equation[j] != 0 )
                   {
-                     new_image.push_back(std::make_pair(j, -term.second * equation[j]));
+                     new_image.push_back(std::make_pair(j, -sign * term.second * static_cast<Factor>(equation[j])));
                   }
                }
             }
             else
             {
-               new_image.push_back(term);
+               new_image.push_back(std::make_pair(term.first, scale * term.second));
             }
-            image = new_image;
          }
+         image = new_image;
       }
    }
 
@@ -167,20 +170,20 @@ namespace
       for ( auto& image : map )
       {
          std::sort(image.begin(), image.end());
-         for ( std::size_t i = 0; i + 1 < image.size(); ++i )
+         Image merged;
+         for ( const auto& term : image )
          {
-            if ( image[i].first == image[i + 1].first ) // same Index
+            if ( merged.empty() || merged.back().first != term.first )
             {
-               image[i].second += image[i + 1].second; // merge factors
-               image.erase(image.begin() + static_cast<Image::difference_type>(i) + 1);     // erase unused term
-               if ( image[i].second == 0 )
-               {
-                  image.erase(image.begin() + static_cast<Image::difference_type>(i)); // erase unused item
-                  --i; // decrement i because the current i needs to be revisited
-               }
-               --i; // decrement i because we erased the next item
+               merged.push_back(term);
+            }
+            else // same Index
+            {
+               merged.back().second += term.second; // merge factors
             }
          }
+         merged.erase(std::remove_if(merged.begin(), merged.end(), [](const Term& term) { return term.second == 0; }), merged.end());
+         image = merged;
       }
    }
 
-- 
2.43.0


From 73797b50a24ec8d79ce4b5db5f404c6826cd8686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:31 +0000
Subject: [PATCH 04/29] fix: normalize reduced inequalities by the given
 equations before expanding their classes

---
 src/algorithm_row_operations.cpp |  6 ++++--
 src/input.cpp                    | 26 +++++++++++++++++++++++++-
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/algorithm_row_operations.cpp b/src/algorithm_row_operations.cpp
index 80bc075..88775dc 100644
--- a/src/algorithm_row_operations.cpp
+++ b/src/algorithm_row_operations.cpp
@@ -228,8 +228,10 @@ Row<Integer> panda::algorithm::normalize(Row<Integer> row, const Equations<Integ
       const auto index = static_cast<std::size_t>(non_zero_it - eq.cbegin());
       if ( row[index] != 0 )
       {
-         const auto a = row[index];
-         const auto b = eq[index];
+         // the factor of the row has to be positive to not change the direction of an inequality.
+         const bool is_negative = (eq[index] < 0);
+         const auto a = is_negative ? Integer(-row[index]) : row[index];
+         const auto b = is_negative ? Integer(-eq[index]) : eq[index];
          row *= b;
          row -= a * eq;
       }
diff --git a/src/input.cpp b/src/input.cpp
index bfa4f5b..ec422f4 100644
--- a/src/input.cpp
+++ b/src/input.cpp
@@ -94,6 +94,24 @@ namespace
       }
       return inequalities;
    }
+   /// Returns equivalent equations such that the first coefficient of any equation doesn't occur in any other.
+   Equations<int> reduceEquations(const Equations<int>& equations)
+   {
+      Equations<int> reduced;
+      for ( const auto& equation : equations )
+      {
+         const auto candidate = algorithm::normalize(equation, reduced);
+         if ( std::any_of(candidate.cbegin(), candidate.cend(), [](const int a) { return a != 0; }) )
+         {
+            for ( auto& other : reduced )
+            {
+               other = algorithm::normalize(other, Equations<int>{candidate});
+            }
+            reduced.push_back(candidate);
+         }
+      }
+      return reduced;
+   }
    Inequalities<int> readReducedInequalities(int argc, char** argv, std::ifstream& file, const Names& names, const Maps& maps, const Equations<int>& equations)
    {
       auto inequalities = input::implementation::constraints<ConstraintType::Inequality>(file, names);
@@ -105,7 +123,13 @@ namespace
       {
          std::cerr << "Warning: expanding the reduced input will be invalid, if the polytope is not full dimension (i.e. there are equations).\n";
       }
-      const auto tmp_maps = algorithm::normalize(maps, equations);
+      // maps can only be applied to inequalities that are normalized by the same equations
+      const auto independent_equations = reduceEquations(equations);
+      for ( auto& inequality : inequalities )
+      {
+         inequality = algorithm::normalize(inequality, independent_equations);
+      }
+      const auto tmp_maps = algorithm::normalize(maps, independent_equations);
       expandInequalities(inequalities, tmp_maps);
       return inequalities;
    }
-- 
2.43.0


From b1ac88a6b334e9407c1c20f0c3af19881bd5249f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:24 +0000
Subject: [PATCH 05/29] fix: decide about termination and announce it while
 holding the list's lock

---
 src/list.cpp | 4 +---
 src/list.h   | 2 +-
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/list.cpp b/src/list.cpp
index f8b8eed..716416c 100644
--- a/src/list.cpp
+++ b/src/list.cpp
@@ -97,14 +97,13 @@ void panda::List<Integer, TagType>::put(const Row<Integer>& row) const
 template <typename Integer, typename TagType>
 Row<Integer> panda::List<Integer, TagType>::get() const
 {
+   std::unique_lock<std::mutex> lock(mutex);
    if ( empty() ) // abort
    {
       const auto it = rows.insert(Row<Integer>{}).first;
-      std::unique_lock<std::mutex> lock(mutex);
       iterators.push_back(it);
       condition.notify_all();
    }
-   std::unique_lock<std::mutex> lock(mutex);
    condition.wait(lock, [&](){ return !iterators.empty(); });
    ++workers;
    const auto row = *iterators.front();
@@ -146,7 +145,6 @@ panda::List<Integer, TagType>::List(const Names& names_)
 template <typename Integer, typename TagType>
 bool panda::List<Integer, TagType>::empty() const
 {
-   const std::lock_guard<std::mutex> lock(mutex);
    return workers == 0 && iterators.empty();
 }
 
diff --git a/src/list.h b/src/list.h
index 874771f..22612db 100644
--- a/src/list.h
+++ b/src/list.h
@@ -46,7 +46,7 @@ namespace panda
          mutable std::vector<Iterator> iterators;
          mutable std::size_t counter;
       private:
-         /// checks if all jobs are done.
+         /// checks if all jobs are done. The caller must hold the mutex.
          bool empty() const;
    };
 }
-- 
2.43.0


From ca51b775ed8852db050b9ab4e30f4f571fed9af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:24 +0000
Subject: [PATCH 06/29] fix: do not keep a reference to a temporary while
 adding known vertices

---
 src/method_adjacency_decomposition_implementation.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/method_adjacency_decomposition_implementation.cpp b/src/method_adjacency_decomposition_implementation.cpp
index f5ff76e..5a6b839 100644
--- a/src/method_adjacency_decomposition_implementation.cpp
+++ b/src/method_adjacency_decomposition_implementation.cpp
@@ -167,9 +167,10 @@ namespace
    }
 
    template <typename Integer>
-   std::future<void> initializePool(JobManager<Integer, tag::vertex>& manager, const Matrix<Integer>& matrix, const Maps& maps, const Matrix<Integer>& known_output, const Equations<Integer>&)
+   std::future<void> initializePool(JobManager<Integer, tag::vertex>& manager, const Matrix<Integer>& matrix, const Maps& maps, const Matrix<Integer>& known_output, const Equations<Integer>& equations)
    {
-      return initializationOnMaster(manager, matrix, maps, known_output, {}, "Vertices / Rays");
+      // The equations (none) are used asynchronously: they have to outlive this call.
+      return initializationOnMaster(manager, matrix, maps, known_output, equations, "Vertices / Rays");
    }
 
    template <typename Integer, typename TagType>
-- 
2.43.0


From 783214bdfc270b8cd6e167886e3d384a03ff7028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:35 +0000
Subject: [PATCH 07/29] fix: correct sign and remainder when dividing negative
 BigIntegers

---
 src/big_integer.cpp             | 4 +---
 src/big_integer_arithmetics.cpp | 7 ++++++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/big_integer.cpp b/src/big_integer.cpp
index 1e920dc..e1052c4 100644
--- a/src/big_integer.cpp
+++ b/src/big_integer.cpp
@@ -121,9 +121,7 @@ BigInteger panda::BigInteger::divideMagnitudesWithRemainder(const BigInteger& se
    }
    if ( is_negative )
    {
-      result.flipSign();
-      remainder.flipSign();
-      remainder += second;
+      remainder.flipSign(); // as for integers, the remainder has the sign of the dividend.
    }
    *this = result;
    return remainder;
diff --git a/src/big_integer_arithmetics.cpp b/src/big_integer_arithmetics.cpp
index 211ff32..83c5496 100644
--- a/src/big_integer_arithmetics.cpp
+++ b/src/big_integer_arithmetics.cpp
@@ -173,6 +173,10 @@ BigInteger& panda::BigInteger::operator%=(const BigInteger& second)
    catch ( ... ) // catch failed attempt of falling back to integer operation
    {
       *this = divideMagnitudesWithRemainder(second);
+      if ( isNegative() )
+      {
+         *this += second;
+      }
       return *this;
    }
 }
@@ -273,7 +277,8 @@ namespace
       const int a = first;
       const int b = second;
       assert( b > 0 );
-      first = BigInteger(((a < 0) ? b : 0) + (a % b));
+      const int remainder = a % b;
+      first = BigInteger((remainder < 0) ? remainder + b : remainder);
       return first;
    }
 }
-- 
2.43.0


From 19d7b49b141749175e90b4113b56c8991136a6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:32 +0000
Subject: [PATCH 08/29] fix: allow a BigInteger to be multiplied with and
 divided by itself

---
 src/big_integer_arithmetics.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/big_integer_arithmetics.cpp b/src/big_integer_arithmetics.cpp
index 83c5496..c195270 100644
--- a/src/big_integer_arithmetics.cpp
+++ b/src/big_integer_arithmetics.cpp
@@ -49,8 +49,9 @@ BigInteger& panda::BigInteger::operator*=(const BigInteger& second)
    catch ( ... ) // catch failed attempt of falling back to integer operation
    {
       auto copy = *this;
+      const auto factor = second; // second may be *this
       data = {0};
-      for ( const auto& entry : second.data )
+      for ( const auto& entry : factor.data )
       {
          DataType mask = 1;
          for ( int j = 0; j < std::numeric_limits<DataType>::digits; ++j, copy <<= 1, mask <<= 1 )
@@ -61,7 +62,7 @@ BigInteger& panda::BigInteger::operator*=(const BigInteger& second)
             }
          }
       }
-      if ( second.sign == Sign::Negative )
+      if ( factor.sign == Sign::Negative )
       {
          flipSign();
       }
@@ -89,9 +90,9 @@ BigInteger& panda::BigInteger::operator/=(const BigInteger& second)
    }
    catch ( ... ) // catch failed attempt of falling back to integer operation
    {
-      const auto original_sign = sign;
-      auto r = divideMagnitudesWithRemainder(second);
-      if ( second.sign != original_sign )
+      const auto is_sign_different = (second.sign != sign); // second may be *this
+      divideMagnitudesWithRemainder(second);
+      if ( is_sign_different )
       {
          flipSign();
       }
-- 
2.43.0


From b480673a145590c4adb9ab2c2880966a5a319d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:38 +0000
Subject: [PATCH 09/29] fix: compare BigIntegers with the smallest int
 correctly

---
 src/big_integer_comparisons.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/big_integer_comparisons.cpp b/src/big_integer_comparisons.cpp
index d9b1988..9d4c32d 100644
--- a/src/big_integer_comparisons.cpp
+++ b/src/big_integer_comparisons.cpp
@@ -7,10 +7,20 @@
 #include "big_integer.h"
 
 #include <algorithm>
-#include <cstdlib>
+#include <cstdint>
 
 using namespace panda;
 
+namespace
+{
+   /// Absolute value, which (unlike the result of std::abs) exists for the smallest int as well.
+   uint_fast32_t magnitude(const int value) noexcept
+   {
+      using Unsigned = uint_fast32_t;
+      return (value < 0) ? static_cast<Unsigned>(-(value + 1)) + 1 : static_cast<Unsigned>(value);
+   }
+}
+
 bool panda::BigInteger::operator==(const int value) const noexcept
 {
    if ( data.size() > 1 )
@@ -21,7 +31,7 @@ bool panda::BigInteger::operator==(const int value) const noexcept
    {
       return false;
    }
-   return data[0] == static_cast<decltype(data[0])>(std::abs(value));
+   return data[0] == magnitude(value);
 }
 
 bool panda::BigInteger::operator!=(const int value) const noexcept
@@ -41,7 +51,7 @@ bool panda::BigInteger::operator<(const int value) const noexcept
    }
    if ( sign == Sign::Negative ) // now both have same sign
    {
-      return (data[0] > static_cast<DataType>(std::abs(value)));
+      return (data[0] > magnitude(value));
    }
    return (data[0] < static_cast<DataType>(value));
 }
@@ -58,7 +68,7 @@ bool panda::BigInteger::operator>(const int value) const noexcept
    }
    if ( sign == Sign::Negative ) // now both have same sign
    {
-      return (data[0] < static_cast<DataType>(std::abs(value)));
+      return (data[0] < magnitude(value));
    }
    return (data[0] > static_cast<DataType>(value));
 }
-- 
2.43.0


From 99a42b4ae8e6a06bb01b77ce81debc3d14a74f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:25 +0000
Subject: [PATCH 10/29] fix: print 64 bit results without truncating them to
 int

---
 src/algorithm_row_operations.cpp | 166 +++++++++++++++++++------------
 1 file changed, 101 insertions(+), 65 deletions(-)

diff --git a/src/algorithm_row_operations.cpp b/src/algorithm_row_operations.cpp
index 88775dc..94b4302 100644
--- a/src/algorithm_row_operations.cpp
+++ b/src/algorithm_row_operations.cpp
@@ -11,6 +11,7 @@
 #include <algorithm>
 #include <cassert>
 #include <cstddef>
+#include <cstdint>
 #include <iostream>
 #include <numeric>
 #include <stdexcept>
@@ -21,80 +22,129 @@
 
 using namespace panda;
 
-template <typename Integer>
-std::ostream& operator<<(std::ostream& output, const Row<Integer>& row)
+namespace
 {
-   return (output << cast<int>(row));
-}
-
-template <>
-std::ostream& operator<<(std::ostream& output, const Row<int>& row)
-{
-   for ( const auto& e : row )
+   /// Fixed width integers are printed as they are.
+   const Row<int64_t>& printable(const Row<int64_t>& row)
    {
-      if ( e >= 0 )
-      {
-         output << ' ';
-      }
-      output << ' ' << e;
+      return row;
    }
-   return output;
-}
-
-template <typename Integer>
-void panda::algorithm::prettyPrint(std::ostream& output, const Row<Integer>& row, const Names& names, const char* relation)
-{
-   prettyPrint(output, cast<int>(row), names, relation);
-}
 
-template <>
-void panda::algorithm::prettyPrint(std::ostream& output, const Row<int>& row, const Names& names, const char* relation)
-{
-   if ( names.empty() )
+   /// All other types have to fit into int.
+   template <typename Integer>
+   Row<int> printable(const Row<Integer>& row)
    {
-      output << row;
-      return;
+      return cast<int>(row);
    }
-   assert( row.size() == names.size() + 1 );
-   bool printed_something = false;
-   for ( std::size_t i = 0; i + 1 < row.size(); ++i )
+
+   template <typename Integer>
+   std::ostream& print(std::ostream& output, const Row<Integer>& row)
    {
-      if ( row[i] != 0 )
+      for ( const auto& e : row )
       {
-         if ( printed_something )
+         if ( e >= 0 )
          {
             output << ' ';
          }
-         if ( row[i] == 1 )
+         output << ' ' << e;
+      }
+      return output;
+   }
+
+   template <typename Integer>
+   void printNamed(std::ostream& output, const Row<Integer>& row, const Names& names, const char* relation)
+   {
+      if ( names.empty() )
+      {
+         print(output, row);
+         return;
+      }
+      assert( row.size() == names.size() + 1 );
+      bool printed_something = false;
+      for ( std::size_t i = 0; i + 1 < row.size(); ++i )
+      {
+         if ( row[i] != 0 )
          {
             if ( printed_something )
             {
-               output << '+';
+               output << ' ';
             }
-         }
-         else if ( row[i] == -1 )
-         {
-            output << '-';
-         }
-         else
-         {
-            if ( row[i] > 1 && printed_something )
+            if ( row[i] == 1 )
+            {
+               if ( printed_something )
+               {
+                  output << '+';
+               }
+            }
+            else if ( row[i] == -1 )
+            {
+               output << '-';
+            }
+            else
             {
-               output << '+';
+               if ( row[i] > 1 && printed_something )
+               {
+                  output << '+';
+               }
+               output << row[i];
             }
-            output << row[i];
+            output << names[i];
+            printed_something = true;
          }
-         output << names[i];
-         printed_something = true;
       }
+      output << ' ' << relation << ' ' << algorithm::rhs(row);
    }
-   output << ' ' << relation << ' ' << algorithm::rhs(row);
+
+   template <typename Integer>
+   void printFractions(std::ostream& stream, const Vertex<Integer>& vertex)
+   {
+      assert( !vertex.empty() );
+      assert( vertex.back() != 0 );
+      const auto denominator_is_negative = (vertex.back() < 0);
+      const auto denominator = ((denominator_is_negative) ? -1 : 1) * vertex.back();
+      for ( std::size_t i = 0; i + 1 < vertex.size(); ++i )
+      {
+         const auto gcd_value = algorithm::gcd(vertex[i], denominator);
+         assert( gcd_value != 0 );
+         stream << ((denominator_is_negative) ? -1 : 1) * vertex[i] / gcd_value;
+         if ( denominator / gcd_value != 1 )
+         {
+            stream << '/' << denominator / gcd_value;
+         }
+         stream << ' ';
+      }
+   }
+}
+
+template <typename Integer>
+std::ostream& operator<<(std::ostream& output, const Row<Integer>& row)
+{
+   return print(output, printable(row));
+}
+
+template <>
+std::ostream& operator<<(std::ostream& output, const Row<int>& row)
+{
+   return print(output, row);
+}
+
+template <typename Integer>
+void panda::algorithm::prettyPrint(std::ostream& output, const Row<Integer>& row, const Names& names, const char* relation)
+{
+   printNamed(output, printable(row), names, relation);
+}
+
+template <>
+void panda::algorithm::prettyPrint(std::ostream& output, const Row<int>& row, const Names& names, const char* relation)
+{
+   printNamed(output, row, names, relation);
 }
 
 template <typename Integer>
 void panda::algorithm::prettyPrintln(std::ostream& output, const Row<Integer>& row, const Names& names, const char* relation)
 {
-   prettyPrintln(output, cast<int>(row), names, relation);
+   prettyPrint(output, row, names, relation);
+   output << '\n';
 }
 
 template <>
@@ -107,27 +157,13 @@ void panda::algorithm::prettyPrintln(std::ostream& output, const Row<int>& row,
 template <typename Integer>
 void panda::algorithm::printFractional(std::ostream& stream, const Vertex<Integer>& vertex)
 {
-   printFractional(stream, cast<int>(vertex));
+   printFractions(stream, printable(vertex));
 }
 
 template <>
 void panda::algorithm::printFractional(std::ostream& stream, const Vertex<int>& vertex)
 {
-   assert( !vertex.empty() );
-   assert( vertex.back() != 0 );
-   const auto denominator_is_negative = (vertex.back() < 0);
-   const auto denominator = ((denominator_is_negative) ? -1 : 1) * vertex.back();
-   for ( std::size_t i = 0; i + 1 < vertex.size(); ++i )
-   {
-      const auto gcd_value = gcd(vertex[i], denominator);
-      assert( gcd_value != 0 );
-      stream << ((denominator_is_negative) ? -1 : 1) * vertex[i] / gcd_value;
-      if ( denominator / gcd_value != 1 )
-      {
-         stream << '/' << denominator / gcd_value;
-      }
-      stream << ' ';
-   }
+   printFractions(stream, vertex);
 }
 
 template <typename Integer>
-- 
2.43.0


From be23e7b4d2dade435023a426d9772171d46efbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:18 +0000
Subject: [PATCH 11/29] fix: recognise the keyword DIM when followed by a value

---
 src/input_dimension.cpp |  7 +++++--
 src/input_keywords.cpp  | 16 ++++++++--------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/input_dimension.cpp b/src/input_dimension.cpp
index ac0773c..88be11c 100644
--- a/src/input_dimension.cpp
+++ b/src/input_dimension.cpp
@@ -8,17 +8,20 @@
 
 #include <stdexcept>
 
+#include "input_common.h"
+
 using namespace panda;
 
 std::size_t panda::input::implementation::dimension(std::istream& stream)
 {
-   while ( stream && stream.peek() != '=' )
+   while ( stream && stream.peek() != '=' && !isEndOfLine(stream) )
    {
       stream.get();
    }
    stream.get(); // consume '='
+   skipWhitespace(stream);
    std::size_t dim;
-   if ( !(stream >> dim) )
+   if ( isEndOfLine(stream) || !(stream >> dim) )
    {
       throw std::invalid_argument("Argument to field \"dimension\" is invalid.");
    }
diff --git a/src/input_keywords.cpp b/src/input_keywords.cpp
index f686e25..10c9ba8 100644
--- a/src/input_keywords.cpp
+++ b/src/input_keywords.cpp
@@ -107,14 +107,14 @@ bool panda::input::implementation::isKeywordReducedConvexHull(const std::string&
 
 bool panda::input::implementation::isKeywordDimension(const std::string& string) noexcept
 {
-   return (string == "DIM" ||
-           string == "DIM=" ||
-           string == "DIMENSION" ||
-           string == "DIMENSION=" ||
-           string == "Dim" ||
-           string == "Dim=" ||
-           string == "Dimension" ||
-           string == "Dimension=");
+   // the keyword may be followed by the value, i.e. "DIM=3" or "DIM = 3".
+   const auto word = string.substr(0, string.find_first_of("= \t"));
+   if ( word != "DIM" && word != "DIMENSION" && word != "Dim" && word != "Dimension" )
+   {
+      return false;
+   }
+   const auto next = string.find_first_not_of(" \t", word.size());
+   return (next == std::string::npos || string[next] == '=');
 }
 
 bool panda::input::implementation::isKeywordEquations(const std::string& string) noexcept
-- 
2.43.0


From 98e1eafd9fc88687916b615d8f6552aa603fb2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:18 +0000
Subject: [PATCH 12/29] fix: refuse vertices and rays with tokens that are not
 rational numbers

---
 src/input_vertex.cpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/input_vertex.cpp b/src/input_vertex.cpp
index 0fe3c01..421d6da 100644
--- a/src/input_vertex.cpp
+++ b/src/input_vertex.cpp
@@ -48,10 +48,6 @@ ConicalHull<int> panda::input::implementation::verticesConical(std::istream& str
          ray.back() = 0;
          cone.push_back(ray);
       }
-      else
-      {
-         stream.clear();
-      }
    }
    if ( stream && isKeywordEnd(firstWord(peekLine(stream))) )
    {
@@ -96,13 +92,14 @@ ConvexHull<int> panda::input::implementation::verticesConvex(std::istream& strea
 ConvexHull<int> panda::input::implementation::vertices(std::istream& stream)
 {
    ConvexHull<int> conv;
-   while ( stream )
+   while ( stream && !isEndOfFile(stream) )
    {
       const auto vertex = ::vertex(stream);
       if ( !vertex.empty() )
       {
          conv.push_back(vertex);
       }
+      skipEndOfLine(stream);
    }
    return conv;
 }
@@ -117,14 +114,23 @@ namespace
       skipWhitespace(stream);
       Row<int> numerator;
       Row<int> denominator;
-      for ( int tmp; stream >> tmp; )
+      for ( ; stream && !isEndOfLine(stream) && !isEndOfFile(stream); skipWhitespace(stream) )
       {
+         int tmp;
+         if ( !(stream >> tmp) )
+         {
+            errorWithLineInformation<std::invalid_argument>("Non-integral token in vertex / ray", id);
+         }
          numerator.push_back(tmp);
          skipWhitespace(stream);
          if ( stream.peek() == '/' )
          {
             stream.get(); // consume division operator
-            stream >> tmp;
+            skipWhitespace(stream);
+            if ( isEndOfLine(stream) || !(stream >> tmp) )
+            {
+               errorWithLineInformation<std::invalid_argument>("Non-integral denominator in vertex / ray", id);
+            }
             if ( tmp == 0 )
             {
                errorWithLineInformation<std::invalid_argument>("Division by zero", id);
@@ -133,13 +139,9 @@ namespace
          }
          else
          {
+            stream.clear(); // the last number may end the file
             denominator.push_back(1);
          }
-         skipWhitespace(stream);
-         if ( stream.peek() == '\n' )
-         {
-            break;
-         }
       }
       assert( numerator.size() == denominator.size() );
       if ( numerator.empty() )
-- 
2.43.0


From f8f0c1d72f4f4d757f5b4dcda6ba1c2a66f59780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:18 +0000
Subject: [PATCH 13/29] fix: refuse maps without names or with a wrong number
 of images

---
 src/input_map.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/input_map.cpp b/src/input_map.cpp
index df841bf..76e76d6 100644
--- a/src/input_map.cpp
+++ b/src/input_map.cpp
@@ -30,6 +30,10 @@ Maps panda::input::implementation::maps(std::istream& stream, const Names& names
    {
       throw std::invalid_argument("Cannot read maps: file is at an invalid position.");
    }
+   if ( names.empty() )
+   {
+      throw std::invalid_argument("Maps require names. Names must be declared before the section of maps.");
+   }
    while ( stream && !isKeyword(trimWhitespace(peekLine(stream))) )
    {
       if ( trimWhitespace(peekLine(stream)).empty() )
@@ -104,10 +108,16 @@ namespace
       std::size_t position = 0;
       while ( position != std::string::npos && position < token.size() )
       {
+         const auto start = position;
          const auto factor = extractFactor(token, position);
+         const auto has_digits = token.find_first_of("0123456789", start) < position;
          const auto variable = extractName(token, position);
          if ( variable.empty() )
          {
+            if ( !has_digits )
+            {
+               throw std::invalid_argument("In \"" + token + "\" of a map, a sign is not followed by a term.");
+            }
             // not referring to a name => index == number of names
             result.push_back(std::make_pair(names.size(), factor));
          }
@@ -132,13 +142,21 @@ namespace
       skipWhitespace(stream);
       std::size_t index{0};
       // tokenize (read std::strings from stream before the next line break)
-      while ( stream && !isEndOfLine(stream) && !isEndOfFile(stream) && index < result.size() )
+      for ( ; stream && !isEndOfLine(stream) && !isEndOfFile(stream); skipWhitespace(stream) )
       {
+         if ( index == result.size() )
+         {
+            throw std::invalid_argument("A map has more images than there are variables.");
+         }
          std::string token;
          stream >> token;
          result[index] = image(token, names);
          ++index;
       }
+      if ( index != result.size() )
+      {
+         throw std::invalid_argument("A map has fewer images than there are variables.");
+      }
       return result;
    }
 }
-- 
2.43.0


From 4efeefa4154bd0170c772284289bf93d701af38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:18 +0000
Subject: [PATCH 14/29] fix: refuse misplaced signs and terms in inequalities
 with names

---
 src/input_common.cpp                     |  2 +-
 src/input_constraint_named_variables.cpp | 16 ++++++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/input_common.cpp b/src/input_common.cpp
index 7262f7d..0408850 100644
--- a/src/input_common.cpp
+++ b/src/input_common.cpp
@@ -245,7 +245,7 @@ int panda::input::toInt(const std::string& string)
    }
    std::istringstream stream(string);
    int result;
-   if ( !(stream >> result) )
+   if ( !(stream >> result) || stream.peek() != std::istringstream::traits_type::eof() )
    {
       throw std::invalid_argument("toInt: Argument is not an integer.");
    }
diff --git a/src/input_constraint_named_variables.cpp b/src/input_constraint_named_variables.cpp
index 7992977..076c6f4 100644
--- a/src/input_constraint_named_variables.cpp
+++ b/src/input_constraint_named_variables.cpp
@@ -51,6 +51,10 @@ namespace
       const auto factor = toInt(token.substr(0, end_of_factor));
       if ( end_of_factor == std::string::npos ) // this is the RHS (because there is no name).
       {
+         if ( token.find_first_of("0123456789") == std::string::npos )
+         {
+            errorWithLineInformation<std::invalid_argument>("A sign must be followed by a term", id);
+         }
          // c.f. algorithm_inequality_operations.tpp: the rhs is stored negated.
          return std::make_pair(names.size(), -factor);
       }
@@ -103,9 +107,13 @@ namespace
          if ( token == "+" || token == "-" )
          {
             bool is_plus = token == "+";
-            stream >> token;
+            skipWhitespace(stream);
+            if ( isEndOfLine(stream) || !(stream >> token) )
+            {
+               errorWithLineInformation<std::invalid_argument>("A sign must be followed by a term", id);
+            }
             std::tie(index, coefficient) = term(token, names, id);
-            if ( coefficient < 0 )
+            if ( coefficient < 0 || token[0] == '+' || token[0] == '-' )
             {
                errorWithLineInformation<std::invalid_argument>("Excessive \"+\" or \"-\"", id);
             }
@@ -118,6 +126,10 @@ namespace
          {
             std::tie(index, coefficient) = term(token, names, id);
          }
+         if ( relation != RelationOperator::Undecided && index + 1 < ieq.size() )
+         {
+            errorWithLineInformation<std::invalid_argument>("No variables are allowed on the right hand side", id);
+         }
          if ( ieq[index] != 0 && index + 1 < ieq.size() )
          {
             errorWithLineInformation<std::invalid_argument>("Multiple terms for variable \"" + names[index] + "\"", id);
-- 
2.43.0


From f52616b84761174db23d70953ec97092532fab3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:18 +0000
Subject: [PATCH 15/29] fix: check the length of equations, known rows and rows
 that maps are applied to

---
 src/input.cpp             | 14 ++++++++++++++
 src/input_consistency.cpp | 19 +++++++++++++++++++
 src/input_consistency.h   |  4 ++++
 3 files changed, 37 insertions(+)

diff --git a/src/input.cpp b/src/input.cpp
index ec422f4..3234323 100644
--- a/src/input.cpp
+++ b/src/input.cpp
@@ -50,6 +50,7 @@ namespace
    Vertices<int> readVerticesConvex(int argc, char** argv, std::ifstream& file, const Maps& maps)
    {
       const auto conv = input::implementation::verticesConvex(file);
+      input::implementation::checkSize(conv, maps);
       if ( input::checkValidity(argc, argv) )
       {
          input::implementation::checkValidityOfVertexClasses(conv, maps);
@@ -59,6 +60,7 @@ namespace
    Vertices<int> readVerticesReducedConvex(int argc, char** argv, std::ifstream& file, const Maps& maps)
    {
       auto conv = input::implementation::verticesConvex(file);
+      input::implementation::checkSize(conv, maps);
       if ( input::checkValidity(argc, argv) )
       {
          std::cerr << "Warning: validity of input vertices cannot be verified for reduced input.\n";
@@ -69,6 +71,7 @@ namespace
    Vertices<int> readVerticesConical(int argc, char** argv, std::ifstream& file, const Maps& maps)
    {
       const auto cone = input::implementation::verticesConical(file);
+      input::implementation::checkSize(cone, maps);
       if ( input::checkValidity(argc, argv) )
       {
          input::implementation::checkValidityOfVertexClasses(cone, maps);
@@ -78,6 +81,7 @@ namespace
    Vertices<int> readVerticesReducedConical(int argc, char** argv, std::ifstream& file, const Maps& maps)
    {
       auto cone = input::implementation::verticesConical(file);
+      input::implementation::checkSize(cone, maps);
       if ( input::checkValidity(argc, argv) )
       {
          std::cerr << "Warning: validity of input rays cannot be verified for reduced input.\n";
@@ -88,6 +92,7 @@ namespace
    Inequalities<int> readInequalities(int argc, char** argv, std::ifstream& file, const Names& names, const Maps& maps)
    {
       const auto inequalities = input::implementation::constraints<ConstraintType::Inequality>(file, names);
+      input::implementation::checkSize(inequalities, maps);
       if ( input::checkValidity(argc, argv) )
       {
          input::implementation::checkValidityOfInequalityClasses(inequalities, maps);
@@ -115,6 +120,11 @@ namespace
    Inequalities<int> readReducedInequalities(int argc, char** argv, std::ifstream& file, const Names& names, const Maps& maps, const Equations<int>& equations)
    {
       auto inequalities = input::implementation::constraints<ConstraintType::Inequality>(file, names);
+      input::implementation::checkSize(inequalities, maps);
+      if ( !inequalities.empty() )
+      {
+         input::implementation::checkSize(equations, inequalities.front().size());
+      }
       if ( input::checkValidity(argc, argv) )
       {
          std::cerr << "Warning: validity of input inequalities cannot be checked for reduced input.\n";
@@ -196,6 +206,7 @@ std::tuple<Vertices<int>, Names, Maps, Inequalities<int>> panda::input::vertices
    vertices.insert(vertices.end(), cone.cbegin(), cone.cend());
    vertices.insert(vertices.end(), conv.cbegin(), conv.cend());
    auto known_facets = knownFacets(argc, argv, names);
+   implementation::checkSize(known_facets, vertices.front().size());
    if ( input::checkValidity(argc, argv) )
    {
       input::implementation::checkValidityOfInequalities(vertices, known_facets);
@@ -253,6 +264,8 @@ std::tuple<Inequalities<int>, Names, Maps, Vertices<int>> panda::input::inequali
       }
    }
    implementation::checkConsistency(inequalities, names, dimension);
+   implementation::checkSize(inequalities, maps);
+   implementation::checkSize(equations, inequalities.front().size());
    inequalities.reserve(inequalities.size() + 2 * equations.size());
    for ( const auto& equation : equations )
    {
@@ -263,6 +276,7 @@ std::tuple<Inequalities<int>, Names, Maps, Vertices<int>> panda::input::inequali
    inequalities.emplace_back(inequalities.back().size(), 0);
    inequalities.back().back() = -1;
    auto known_vertices = knownVertices(argc, argv);
+   implementation::checkSize(known_vertices, inequalities.front().size());
    if ( input::checkValidity(argc, argv) )
    {
       input::implementation::checkValidityOfVertices(inequalities, known_vertices);
diff --git a/src/input_consistency.cpp b/src/input_consistency.cpp
index 699891a..145cd63 100644
--- a/src/input_consistency.cpp
+++ b/src/input_consistency.cpp
@@ -43,6 +43,10 @@ void panda::input::implementation::checkConsistency(const Inequalities<int>& ine
       throw std::invalid_argument("Invalid input data: No inequalities.");
    }
    const auto dim = inequalities.front().size();
+   if ( dim < 2 )
+   {
+      throw std::invalid_argument("Invalid input data: No variables.");
+   }
    rangeDimensionCheck(inequalities, dim, "Invalid input data: Inconsistent dimensions (an inequality is invalid).");
    if ( !names.empty() && names.size() + 1 != dim )
    {
@@ -75,6 +79,21 @@ void panda::input::implementation::checkConsistency(const ConvexHull<int>& conv,
    }
 }
 
+void panda::input::implementation::checkSize(const Matrix<int>& matrix, const Maps& maps)
+{
+   if ( !matrix.empty() )
+   {
+      const auto size = matrix.front().size();
+      checkSize(matrix, size);
+      rangeDimensionCheck(maps, size, "Invalid input data: Inconsistent dimensions (a map is invalid).");
+   }
+}
+
+void panda::input::implementation::checkSize(const Matrix<int>& matrix, const std::size_t size)
+{
+   rangeDimensionCheck(matrix, size, "Invalid input data: Inconsistent dimensions (a row has the wrong length).");
+}
+
 namespace
 {
    template <typename Range>
diff --git a/src/input_consistency.h b/src/input_consistency.h
index ab80e58..00228ac 100644
--- a/src/input_consistency.h
+++ b/src/input_consistency.h
@@ -24,6 +24,10 @@ namespace panda
          void checkConsistency(const Inequalities<int>&, const Names&, const std::size_t);
          /// Checks the consistency of a polytope.
          void checkConsistency(const ConvexHull<int>&, const ConicalHull<int>&, const Inequalities<int>&, const Names&, const Maps&, const std::size_t);
+         /// Checks that all rows and maps have the same size.
+         void checkSize(const Matrix<int>&, const Maps&);
+         /// Checks that all rows have the specified size.
+         void checkSize(const Matrix<int>&, const std::size_t);
       }
    }
 }
-- 
2.43.0


From 012c4ecb5be7c1b435d539de1b4dafebfd2a59ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:18 +0000
Subject: [PATCH 16/29] fix: refuse known data without vertices or rays

---
 src/input.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/input.cpp b/src/input.cpp
index 3234323..e24f73c 100644
--- a/src/input.cpp
+++ b/src/input.cpp
@@ -393,14 +393,17 @@ namespace
       }
       Vertices<int> conv;
       Vertices<int> cone;
+      bool has_section = false;
       for ( std::string token; input::advanceToNextKeyword(file, token); )
       {
          if ( input::implementation::isKeywordConvexHull(token) )
          {
+            has_section = true;
             conv = readVerticesConvex(argc, argv, file, {});
          }
          else if ( input::implementation::isKeywordConicalHull(token) )
          {
+            has_section = true;
             cone = readVerticesConical(argc, argv, file, {});
          }
          else
@@ -408,6 +411,10 @@ namespace
             std::getline(file, token);
          }
       }
+      if ( !has_section )
+      {
+         throw std::invalid_argument("Expected a section of vertices or rays in a file containing known vertices.");
+      }
       conv.reserve(conv.size() + cone.size());
       conv.insert(conv.end(), cone.cbegin(), cone.cend());
       return conv;
-- 
2.43.0


From e9ddc49eb4ee03c424f464f56a1220c96d9b20ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:41 +0000
Subject: [PATCH 17/29] fix: options of the form -s=<arg> do not take the next
 argument

---
 src/input_detection.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/input_detection.cpp b/src/input_detection.cpp
index dad421b..9bb841b 100644
--- a/src/input_detection.cpp
+++ b/src/input_detection.cpp
@@ -126,7 +126,8 @@ namespace
 {
    bool requiresParameter(char* argument) noexcept
    {
-      return (std::strcmp(argument, "-c") != 0 && // --check
+      return (std::strchr(argument, '=') == nullptr && // -s=<arg>
+              std::strcmp(argument, "-c") != 0 && // --check
               std::strcmp(argument, "-f") != 0);  // --filter
    }
 
-- 
2.43.0


From 8126376fa2a438f758c4ce61accb338c54b4f8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:41 +0000
Subject: [PATCH 18/29] fix: unknown names of orders are refused instead of
 read past their end

---
 src/input_detection.cpp | 61 ++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 35 deletions(-)

diff --git a/src/input_detection.cpp b/src/input_detection.cpp
index 9bb841b..b95b3a1 100644
--- a/src/input_detection.cpp
+++ b/src/input_detection.cpp
@@ -166,56 +166,47 @@ namespace
       return words;
    }
 
-   bool ascending(char* argument) noexcept
+   /// Returns the part of the argument after the prefix or nullptr, if the argument doesn't start with it.
+   const char* afterPrefix(const char* argument, const char* prefix) noexcept
    {
-      return (std::strncmp(argument, "desc", 4) != 0 &&
-              std::strncmp(argument, "down", 4) != 0 &&
-              std::strncmp(argument, "dec", 3) != 0);
+      const auto length = std::strlen(prefix);
+      return (std::strncmp(argument, prefix, length) == 0) ? argument + length : nullptr;
    }
 
-   InputOrder inputOrderLexicographic(char* argument) noexcept
+   bool ascending(const char* direction)
    {
-      if ( std::strcmp(argument, "lex") == 0 || std::strcmp(argument, "lexicographic") == 0 )
+      for ( const auto name : {"", "_asc", "_ascending", "_up"} )
       {
-         return InputOrder::LexicographicAscending;
-      }
-      const auto offset = (std::strncmp(argument, "lex_", 4) == 0) ? 4 : 14;
-      if ( ascending(argument + offset) )
-      {
-         return InputOrder::LexicographicAscending;
-      }
-      else
-      {
-         return InputOrder::LexicographicDescending;
-      }
-   }
-
-   InputOrder inputOrderNonZeroEntries(char* argument) noexcept
-   {
-      if ( std::strcmp(argument, "nz") == 0 || std::strcmp(argument, "nonzero") == 0 )
-      {
-         return InputOrder::NonZeroEntriesAscending;
-      }
-      const int offset = (std::strncmp(argument, "nz_", 3) == 0) ? 3 : 8;
-      if ( ascending(argument + offset) )
-      {
-         return InputOrder::NonZeroEntriesAscending;
+         if ( std::strcmp(direction, name) == 0 )
+         {
+            return true;
+         }
       }
-      else
+      for ( const auto name : {"_desc", "_descending", "_dec", "_down"} )
       {
-         return InputOrder::NonZeroEntriesDescending;
+         if ( std::strcmp(direction, name) == 0 )
+         {
+            return false;
+         }
       }
+      throw std::invalid_argument("Expected an argument to option \"--sorting\".\n");
    }
 
    InputOrder inputOrder(char* argument)
    {
-      if ( std::strncmp(argument, "lex", 3) == 0 )
+      for ( const auto name : {"lexicographic", "lex"} )
       {
-         return inputOrderLexicographic(argument);
+         if ( const auto direction = afterPrefix(argument, name) )
+         {
+            return ascending(direction) ? InputOrder::LexicographicAscending : InputOrder::LexicographicDescending;
+         }
       }
-      if ( std::strncmp(argument, "n", 1) == 0 )
+      for ( const auto name : {"nonzero", "nz"} )
       {
-         return inputOrderNonZeroEntries(argument);
+         if ( const auto direction = afterPrefix(argument, name) )
+         {
+            return ascending(direction) ? InputOrder::NonZeroEntriesAscending : InputOrder::NonZeroEntriesDescending;
+         }
       }
       if ( std::strcmp(argument, "rev") == 0 || std::strcmp(argument, "reverse") == 0 )
       {
-- 
2.43.0


From f9678135baafd60cce1f6d15a73809902c311ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:10 +0000
Subject: [PATCH 19/29] fix: the documented option --checked is not ignored

---
 src/input_validity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input_validity.cpp b/src/input_validity.cpp
index 74b25e8..65ed969 100644
--- a/src/input_validity.cpp
+++ b/src/input_validity.cpp
@@ -106,7 +106,7 @@ bool panda::input::checkValidity(int argc, char** argv) noexcept
 {
    for ( int i = 1; i < argc; ++i )
    {
-      if ( std::strcmp(argv[i], "-c") == 0 || std::strcmp(argv[i], "--check") == 0 )
+      if ( std::strcmp(argv[i], "-c") == 0 || std::strcmp(argv[i], "--check") == 0 || std::strcmp(argv[i], "--checked") == 0 )
       {
          return true;
       }
-- 
2.43.0


From 26736bdafa5c1956c8d81d525457130c81f493e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:10 +0000
Subject: [PATCH 20/29] fix: find the help of known-data and help-command by
 their names

---
 src/help.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/help.cpp b/src/help.cpp
index 4e4bed1..40aef90 100644
--- a/src/help.cpp
+++ b/src/help.cpp
@@ -189,7 +189,7 @@ namespace
       {
          printHelpCommandCheck();
       }
-      else if ( command == "h" || command == "-h" || command == "--h" || command == "help" || command == "-help" || command == "--help" || command == "?" )
+      else if ( command == "h" || command == "-h" || command == "--h" || command == "help" || command == "-help" || command == "--help" || command == "help-command" || command == "--help-command" || command == "?" )
       {
          printHelpCommandHelp();
       }
@@ -197,7 +197,7 @@ namespace
       {
          printHelpCommandIntegerType();
       }
-      else if ( command == "k" || command == "-k" || command == "known_facets" || command == "--known_facets" || command == "known_vertices" || command == "--known_vertices" || command == "known_data" || command == "--known_data" )
+      else if ( command == "k" || command == "-k" || command == "known_facets" || command == "--known_facets" || command == "known_vertices" || command == "--known_vertices" || command == "known_data" || command == "--known_data" || command == "known-facets" || command == "--known-facets" || command == "known-vertices" || command == "--known-vertices" || command == "known-data" || command == "--known-data" )
       {
          printHelpCommandKnownData();
       }
-- 
2.43.0


From 898caf35affd2ee6cacd055d6433cba2c5b9a172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:10 +0000
Subject: [PATCH 21/29] fix: errors in the command line end in an error message
 instead of an abort

---
 src/main.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main.cpp b/src/main.cpp
index 7a911d8..0696599 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -4,6 +4,7 @@
 // License: CC BY-NC 4.0 http://creativecommons.org/licenses/by-nc/4.0/legalcode //
 //-------------------------------------------------------------------------------//
 
+#include <exception>
 #include <iostream>
 
 #include "application_name.h"
@@ -22,6 +23,7 @@ namespace
 }
 
 int main(int argc, char** argv)
+try
 {
    const auto mode = detectOperationMode(argc, argv);
    switch ( mode )
@@ -56,6 +58,11 @@ int main(int argc, char** argv)
       }
    }
 }
+catch ( const std::exception& e )
+{
+   std::cerr << "Exception caught: " << e.what() << '\n';
+   return 1;
+}
 
 namespace
 {
-- 
2.43.0


From 5fb7665027e7aab0ba43f2139b90327e1f50ce93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:22 +0000
Subject: [PATCH 22/29] fix: unknown options are refused instead of ignored

---
 src/input_detection.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/input_detection.cpp b/src/input_detection.cpp
index b95b3a1..7a33644 100644
--- a/src/input_detection.cpp
+++ b/src/input_detection.cpp
@@ -29,6 +29,7 @@ namespace
       Inequalities
    };
 
+   bool isOption(const char*) noexcept;
    bool requiresParameter(char*) noexcept;
    std::set<Keyword> keywords(const PositionGuardedFile&);
    InputOrder inputOrder(char*);
@@ -40,6 +41,10 @@ Filename panda::getFilename(int argc, char** argv)
    Filename name;
    for ( int i = 1; i < argc; ++i )
    {
+      if ( std::strncmp(argv[i], "-", 1) == 0 && !isOption(argv[i]) )
+      {
+         throw std::invalid_argument("Unknown option \"" + std::string(argv[i]) + "\".");
+      }
       if ( std::strncmp(argv[i], "--", 2) == 0 )
       {
          continue; // argv[i] is an option of the form "--option=parameter"
@@ -124,6 +129,25 @@ OperationMode panda::detectOperationMode(int argc, char** argv)
 
 namespace
 {
+   bool isOption(const char* argument) noexcept
+   {
+      for ( const auto name : {"-c", "--check", "--checked", "-f", "--filter", "-i", "-k", "-m", "-s", "-t"} )
+      {
+         if ( std::strcmp(argument, name) == 0 )
+         {
+            return true;
+         }
+      }
+      for ( const auto name : {"-i=", "-k=", "-m=", "-s=", "-t=", "--integer-type=", "--known-data=", "--known-facets=", "--known-vertices=", "--method=", "--sorting=", "--threads="} )
+      {
+         if ( std::strncmp(argument, name, std::strlen(name)) == 0 )
+         {
+            return true;
+         }
+      }
+      return false;
+   }
+
    bool requiresParameter(char* argument) noexcept
    {
       return (std::strchr(argument, '=') == nullptr && // -s=<arg>
-- 
2.43.0


From 45716a9986722ff213e8cbc7b3e363aecd3126c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:51 +0000
Subject: [PATCH 23/29] fix: the check of known facets refuses inequalities
 that only rays satisfy with equality

---
 src/input_validity.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/input_validity.cpp b/src/input_validity.cpp
index 65ed969..b433433 100644
--- a/src/input_validity.cpp
+++ b/src/input_validity.cpp
@@ -168,7 +168,8 @@ namespace
             active.push_back(row);
          }
       }
-      if ( active.empty() )
+      // an inequality that is satisfied with equality by rays only is strict on the polyhedron
+      if ( std::none_of(active.cbegin(), active.cend(), [](const Row<int>& row) { return row.back() != 0; }) )
       {
          std::stringstream stream;
          stream << "The inequality " << inequality << " is a valid inequality, but does not define a facet, as it is a strict inequality.";
-- 
2.43.0


From ce27acb8e520747cbce988d7a214a34cfe2b545f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:51 +0000
Subject: [PATCH 24/29] fix: the check of maps compares rows without common
 divisors and repetitions

---
 src/input_validity.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/input_validity.cpp b/src/input_validity.cpp
index b433433..748fc52 100644
--- a/src/input_validity.cpp
+++ b/src/input_validity.cpp
@@ -24,6 +24,7 @@ namespace
    bool inequalityIsValid(const Matrix<int>&, const Inequality<int>&, const std::size_t);
    void checkValidityOfInequality(const Matrix<int>&, const Inequality<int>&, const std::size_t);
    void checkValidityOfVertex(const Matrix<int>&, const Vertex<int>&, const std::size_t);
+   Matrix<int> distinctRows(Matrix<int>);
    void checkValidityInequalities(const Matrix<int>&, const Map&);
    void checkValidityVertices(const Matrix<int>&, const Map&);
 }
@@ -59,18 +60,20 @@ void panda::input::implementation::checkValidityOfVertices(const Matrix<int>& ma
 /// Input is considered valid if and only if each map is a bijection on the set of inequalities.
 void panda::input::implementation::checkValidityOfInequalityClasses(const Inequalities<int>& inequalities, const Maps& maps)
 {
+   const auto rows = distinctRows(inequalities);
    for ( const auto& map : maps )
    {
-      checkValidityInequalities(inequalities, map);
+      checkValidityInequalities(rows, map);
    }
 }
 
 /// Input is considered valid if and only if each map is a bijection on the set of vertices.
 void panda::input::implementation::checkValidityOfVertexClasses(const Vertices<int>& vertices, const Maps& maps)
 {
+   const auto rows = distinctRows(vertices);
    for ( const auto& map : maps )
    {
-      checkValidityVertices(vertices, map);
+      checkValidityVertices(rows, map);
    }
 }
 
@@ -214,6 +217,22 @@ namespace
       }
    }
 
+   /// Returns the set of rows in the form that maps are applied to: without common divisors and repetitions.
+   Matrix<int> distinctRows(Matrix<int> matrix)
+   {
+      for ( auto& row : matrix )
+      {
+         const auto gcd_value = algorithm::gcd(row);
+         if ( gcd_value > 1 )
+         {
+            row /= gcd_value;
+         }
+      }
+      std::sort(matrix.begin(), matrix.end());
+      matrix.erase(std::unique(matrix.begin(), matrix.end()), matrix.end());
+      return matrix;
+   }
+
    void checkValidityInequalities(const Matrix<int>& matrix, const Map& map)
    {
       std::vector<std::size_t> indices(matrix.size());
-- 
2.43.0


From 02e62005a77c9e435edbc52cf36db1498b82cd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:53 +0000
Subject: [PATCH 25/29] fix: the check of maps covers maps that are given after
 the rows

---
 src/input.cpp | 56 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/src/input.cpp b/src/input.cpp
index e24f73c..35cea4d 100644
--- a/src/input.cpp
+++ b/src/input.cpp
@@ -47,14 +47,10 @@ namespace
 
 namespace
 {
-   Vertices<int> readVerticesConvex(int argc, char** argv, std::ifstream& file, const Maps& maps)
+   Vertices<int> readVerticesConvex(std::ifstream& file, const Maps& maps)
    {
       const auto conv = input::implementation::verticesConvex(file);
       input::implementation::checkSize(conv, maps);
-      if ( input::checkValidity(argc, argv) )
-      {
-         input::implementation::checkValidityOfVertexClasses(conv, maps);
-      }
       return conv;
    }
    Vertices<int> readVerticesReducedConvex(int argc, char** argv, std::ifstream& file, const Maps& maps)
@@ -68,14 +64,10 @@ namespace
       expandVertices(conv, maps);
       return conv;
    }
-   Vertices<int> readVerticesConical(int argc, char** argv, std::ifstream& file, const Maps& maps)
+   Vertices<int> readVerticesConical(std::ifstream& file, const Maps& maps)
    {
       const auto cone = input::implementation::verticesConical(file);
       input::implementation::checkSize(cone, maps);
-      if ( input::checkValidity(argc, argv) )
-      {
-         input::implementation::checkValidityOfVertexClasses(cone, maps);
-      }
       return cone;
    }
    Vertices<int> readVerticesReducedConical(int argc, char** argv, std::ifstream& file, const Maps& maps)
@@ -89,14 +81,10 @@ namespace
       expandVertices(cone, maps);
       return cone;
    }
-   Inequalities<int> readInequalities(int argc, char** argv, std::ifstream& file, const Names& names, const Maps& maps)
+   Inequalities<int> readInequalities(std::ifstream& file, const Names& names, const Maps& maps)
    {
       const auto inequalities = input::implementation::constraints<ConstraintType::Inequality>(file, names);
       input::implementation::checkSize(inequalities, maps);
-      if ( input::checkValidity(argc, argv) )
-      {
-         input::implementation::checkValidityOfInequalityClasses(inequalities, maps);
-      }
       return inequalities;
    }
    /// Returns equivalent equations such that the first coefficient of any equation doesn't occur in any other.
@@ -156,6 +144,8 @@ std::tuple<Vertices<int>, Names, Maps, Inequalities<int>> panda::input::vertices
    }
    ConvexHull<int> conv;
    ConvexHull<int> cone;
+   bool is_conv_reduced = false;
+   bool is_cone_reduced = false;
    std::size_t dimension = std::numeric_limits<std::size_t>::max();
    Names names;
    Maps maps;
@@ -179,19 +169,23 @@ std::tuple<Vertices<int>, Names, Maps, Inequalities<int>> panda::input::vertices
       }
       else if ( implementation::isKeywordConvexHull(token) )
       {
-         conv = readVerticesConvex(argc, argv, file, maps);
+         conv = readVerticesConvex(file, maps);
+         is_conv_reduced = false;
       }
       else if ( implementation::isKeywordReducedConvexHull(token) )
       {
          conv = readVerticesReducedConvex(argc, argv, file, maps);
+         is_conv_reduced = true;
       }
       else if ( implementation::isKeywordConicalHull(token) )
       {
-         cone = readVerticesConical(argc, argv, file, maps);
+         cone = readVerticesConical(file, maps);
+         is_cone_reduced = false;
       }
       else if ( implementation::isKeywordReducedConicalHull(token) )
       {
          cone = readVerticesReducedConical(argc, argv, file, maps);
+         is_cone_reduced = true;
       }
       else
       {
@@ -199,6 +193,18 @@ std::tuple<Vertices<int>, Names, Maps, Inequalities<int>> panda::input::vertices
       }
    }
    implementation::checkConsistency(conv, cone, names, maps, dimension);
+   if ( input::checkValidity(argc, argv) )
+   {
+      // maps may be given after the rows
+      if ( !is_conv_reduced )
+      {
+         implementation::checkValidityOfVertexClasses(conv, maps);
+      }
+      if ( !is_cone_reduced )
+      {
+         implementation::checkValidityOfVertexClasses(cone, maps);
+      }
+   }
    sort(argc, argv, cone);
    sort(argc, argv, conv);
    Matrix<int> vertices;
@@ -225,6 +231,7 @@ std::tuple<Inequalities<int>, Names, Maps, Vertices<int>> panda::input::inequali
    }
    Equations<int> equations;
    Inequalities<int> inequalities;
+   bool is_reduced = false;
    std::size_t dimension = std::numeric_limits<std::size_t>::max();
    Names names;
    Maps maps;
@@ -252,11 +259,13 @@ std::tuple<Inequalities<int>, Names, Maps, Vertices<int>> panda::input::inequali
       }
       else if ( implementation::isKeywordInequalities(token) )
       {
-         inequalities = readInequalities(argc, argv, file, names, maps);
+         inequalities = readInequalities(file, names, maps);
+         is_reduced = false;
       }
       else if ( implementation::isKeywordReducedInequalities(token) )
       {
          inequalities = readReducedInequalities(argc, argv, file, names, maps, equations);
+         is_reduced = true;
       }
       else
       {
@@ -265,6 +274,11 @@ std::tuple<Inequalities<int>, Names, Maps, Vertices<int>> panda::input::inequali
    }
    implementation::checkConsistency(inequalities, names, dimension);
    implementation::checkSize(inequalities, maps);
+   if ( input::checkValidity(argc, argv) && !is_reduced )
+   {
+      // maps may be given after the rows
+      implementation::checkValidityOfInequalityClasses(inequalities, maps);
+   }
    implementation::checkSize(equations, inequalities.front().size());
    inequalities.reserve(inequalities.size() + 2 * equations.size());
    for ( const auto& equation : equations )
@@ -374,7 +388,7 @@ namespace
       input::advanceToNextKeyword(file, token);
       if ( input::implementation::isKeywordInequalities(token) )
       {
-         return readInequalities(argc, argv, file, names, {});
+         return readInequalities(file, names, {});
       }
       throw std::invalid_argument("Expected no other keyword than \"Inequalities\" in a file containing known facets.");
    }
@@ -399,12 +413,12 @@ namespace
          if ( input::implementation::isKeywordConvexHull(token) )
          {
             has_section = true;
-            conv = readVerticesConvex(argc, argv, file, {});
+            conv = readVerticesConvex(file, {});
          }
          else if ( input::implementation::isKeywordConicalHull(token) )
          {
             has_section = true;
-            cone = readVerticesConical(argc, argv, file, {});
+            cone = readVerticesConical(file, {});
          }
          else
          {
-- 
2.43.0


From 7307c44be65a6038b340ed7b0d93f2046ea41236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:21 +0000
Subject: [PATCH 26/29] fix: buffers of pending MPI sends went out of scope
 before the sends were complete

---
 src/communication.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/communication.cpp b/src/communication.cpp
index 5722b37..cfc5890 100644
--- a/src/communication.cpp
+++ b/src/communication.cpp
@@ -85,10 +85,11 @@ void panda::Communication::toMaster(const Matrix<int>& matrix) const
 {
    std::vector<MPI_Request> requests;
    requests.reserve(2 + matrix.size());
+   // the transmitted values have to exist until the sends are complete.
+   const auto size = matrix.size();
+   const auto row_size = matrix.back().size();
    { // post sends, scoped because we only hold the lock for as long the MPI calls last.
       std::lock_guard<std::mutex> lock(mutex);
-      const auto size = matrix.size();
-      const auto row_size = matrix.back().size();
       requests.emplace_back(send(&size, sizeof(decltype(size)), Master, tag::matrix));
       requests.emplace_back(send(&row_size, sizeof(decltype(row_size)), Master, tag::matrix));
       for ( const auto& row : matrix )
-- 
2.43.0


From 36481de06466f0adeea52fe37827543a8f5ba672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:21 +0000
Subject: [PATCH 27/29] fix: an MPI process without a result (no adjacent
 facets) crashed

---
 src/communication.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/communication.cpp b/src/communication.cpp
index cfc5890..daeaa37 100644
--- a/src/communication.cpp
+++ b/src/communication.cpp
@@ -87,7 +87,7 @@ void panda::Communication::toMaster(const Matrix<int>& matrix) const
    requests.reserve(2 + matrix.size());
    // the transmitted values have to exist until the sends are complete.
    const auto size = matrix.size();
-   const auto row_size = matrix.back().size();
+   const auto row_size = matrix.empty() ? std::size_t(0) : matrix.back().size();
    { // post sends, scoped because we only hold the lock for as long the MPI calls last.
       std::lock_guard<std::mutex> lock(mutex);
       requests.emplace_back(send(&size, sizeof(decltype(size)), Master, tag::matrix));
-- 
2.43.0


From 413a06834160049cf424c00e64384580564cf6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:44 +0000
Subject: [PATCH 28/29] fix: MPI runs truncated 64-bit coefficients to int

---
 src/cast.beti         |  6 ++++++
 src/cast.eti          | 13 +++++++------
 src/communication.cpp | 31 ++++++++++++++++---------------
 src/communication.h   |  9 +++++----
 4 files changed, 34 insertions(+), 25 deletions(-)

diff --git a/src/cast.beti b/src/cast.beti
index 7d3adc1..99660b9 100644
--- a/src/cast.beti
+++ b/src/cast.beti
@@ -16,4 +16,10 @@ EXTERN template panda::Matrix<int> panda::cast<int, Integer, 0>(const panda::Mat
 EXTERN template panda::Matrix<Integer> panda::cast<Integer, int, 0>(const panda::Matrix<int>&);
 EXTERN template panda::Row<int> panda::cast<int, Integer, 0>(const panda::Row<Integer>&);
 EXTERN template panda::Row<Integer> panda::cast<Integer, int, 0>(const panda::Row<int>&);
+#ifdef INT64_IS_DIFFERENT
+EXTERN template panda::Matrix<int64_t> panda::cast<int64_t, Integer, 0>(const panda::Matrix<Integer>&);
+EXTERN template panda::Matrix<Integer> panda::cast<Integer, int64_t, 0>(const panda::Matrix<int64_t>&);
+EXTERN template panda::Row<int64_t> panda::cast<int64_t, Integer, 0>(const panda::Row<Integer>&);
+EXTERN template panda::Row<Integer> panda::cast<Integer, int64_t, 0>(const panda::Row<int64_t>&);
+#endif
 
diff --git a/src/cast.eti b/src/cast.eti
index a1906c7..56e919d 100644
--- a/src/cast.eti
+++ b/src/cast.eti
@@ -14,6 +14,7 @@
 #endif
 
 #ifndef NO_FLEXIBILITY
+   #define INT64_IS_DIFFERENT
    #if defined(INT16_MIN) && (INT16_MIN != INT_MIN)
       #define Integer int16_t
       #include "cast.beti"
@@ -24,11 +25,6 @@
       #include "cast.beti"
       #undef Integer
    #endif
-   #if defined(INT64_MIN) && (INT64_MIN != INT_MIN)
-      #define Integer int64_t
-      #include "cast.beti"
-      #undef Integer
-   #endif
    #include "big_integer.h"
    #define Integer panda::BigInteger
    #include "cast.beti"
@@ -37,7 +33,12 @@
    #define Integer panda::SafeInteger
    #include "cast.beti"
    #undef Integer
-#else
+   #undef INT64_IS_DIFFERENT
+#endif
+#if defined(INT64_MIN) && (INT64_MIN != INT_MIN)
+   #define Integer int64_t
+   #include "cast.beti"
+   #undef Integer
 #endif
 
 #undef EXTERN
diff --git a/src/communication.cpp b/src/communication.cpp
index daeaa37..05f80c5 100644
--- a/src/communication.cpp
+++ b/src/communication.cpp
@@ -12,6 +12,7 @@
 
 #include <chrono>
 #include <cstddef>
+#include <cstdint>
 #include <stdexcept>
 #include <thread>
 #include <vector>
@@ -52,25 +53,25 @@ namespace
 template <typename Integer>
 void panda::Communication::toMaster(const Matrix<Integer>& matrix) const
 {
-   toMaster(cast<int>(matrix));
+   toMaster(cast<int64_t>(matrix));
 }
 
 template <typename Integer>
 Matrix<Integer> panda::Communication::fromSlave(const int id) const
 {
-   return cast<Integer>(fromSlave<int>(id));
+   return cast<Integer>(fromSlave<int64_t>(id));
 }
 
 template <typename Integer>
 void panda::Communication::toSlave(const Row<Integer>& row, const int id) const
 {
-   toSlave(cast<int>(row), id);
+   toSlave(cast<int64_t>(row), id);
 }
 
 template <typename Integer>
 Row<Integer> panda::Communication::fromMaster() const
 {
-   return cast<Integer>(fromMaster<int>());
+   return cast<Integer>(fromMaster<int64_t>());
 }
 
 /// It needs to be asserted that no Recv blocks a Send and vice versa if
@@ -81,7 +82,7 @@ Row<Integer> panda::Communication::fromMaster() const
 /// Isend has actually transferred the data.
 
 template <>
-void panda::Communication::toMaster(const Matrix<int>& matrix) const
+void panda::Communication::toMaster(const Matrix<int64_t>& matrix) const
 {
    std::vector<MPI_Request> requests;
    requests.reserve(2 + matrix.size());
@@ -94,7 +95,7 @@ void panda::Communication::toMaster(const Matrix<int>& matrix) const
       requests.emplace_back(send(&row_size, sizeof(decltype(row_size)), Master, tag::matrix));
       for ( const auto& row : matrix )
       {
-         const auto bytes = static_cast<int>(row_size * sizeof(int));
+         const auto bytes = static_cast<int>(row_size * sizeof(int64_t));
          requests.emplace_back(send(&row.front(), bytes, Master, tag::matrix));
       }
    }
@@ -106,7 +107,7 @@ void panda::Communication::toMaster(const Matrix<int>& matrix) const
 }
 
 template <>
-Matrix<int> panda::Communication::fromSlave(const int id) const
+Matrix<int64_t> panda::Communication::fromSlave(const int id) const
 {
    for ( ; true; pause() ) // look for matching transmission, but pause to let others acquire lock.
    {
@@ -117,11 +118,11 @@ Matrix<int> panda::Communication::fromSlave(const int id) const
          std::size_t row_size;
          receive(&size, sizeof(decltype(size)), id, tag::matrix);
          receive(&row_size, sizeof(decltype(row_size)), id, tag::matrix);
-         Matrix<int> matrix(size);
+         Matrix<int64_t> matrix(size);
          for ( auto& row : matrix )
          {
             row.resize(row_size);
-            const auto bytes = static_cast<int>(row_size * sizeof(int));
+            const auto bytes = static_cast<int>(row_size * sizeof(int64_t));
             receive(&row.front(), bytes, id, tag::matrix);
          }
          return matrix;
@@ -130,20 +131,20 @@ Matrix<int> panda::Communication::fromSlave(const int id) const
 }
 
 template <>
-void panda::Communication::toSlave<int>(const Row<int>& row, const int id) const
+void panda::Communication::toSlave<int64_t>(const Row<int64_t>& row, const int id) const
 {
    MPI_Request request;
    {
       std::lock_guard<std::mutex> lock(mutex);
       const auto begin = row.empty() ? nullptr : &row.front();
-      const auto bytes = static_cast<int>(row.size() * sizeof(int));
+      const auto bytes = static_cast<int>(row.size() * sizeof(int64_t));
       request = send(begin, bytes, id, tag::row);
    }
    waitForCompletion(mutex, request);
 }
 
 template <>
-Row<int> panda::Communication::fromMaster<int>() const
+Row<int64_t> panda::Communication::fromMaster<int64_t>() const
 {
    for ( ; true; pause() ) // look for matching transmission, but pause to let others acquire lock.
    {
@@ -154,10 +155,10 @@ Row<int> panda::Communication::fromMaster<int>() const
          MPI_Probe(Master, tag::row, MPI_COMM_WORLD, &status);
          int count;
          MPI_Get_count(&status, MPI_BYTE, &count);
-         const auto row_size = static_cast<std::size_t>(count) / sizeof(int);
-         Row<int> row(row_size);
+         const auto row_size = static_cast<std::size_t>(count) / sizeof(int64_t);
+         Row<int64_t> row(row_size);
          const auto begin = row.empty() ? nullptr : &row.front();
-         const auto bytes = static_cast<int>(row.size() * sizeof(int));
+         const auto bytes = static_cast<int>(row.size() * sizeof(int64_t));
          receive(begin, bytes, Master, tag::row);
          return row;
       }
diff --git a/src/communication.h b/src/communication.h
index da6addb..c5810ac 100644
--- a/src/communication.h
+++ b/src/communication.h
@@ -6,6 +6,7 @@
 
 #pragma once
 
+#include <cstdint>
 #include <mutex>
 
 #include "matrix.h"
@@ -38,14 +39,14 @@ namespace panda
    };
 
    template <>
-   void Communication::toMaster<int>(const Matrix<int>&) const;
+   void Communication::toMaster<int64_t>(const Matrix<int64_t>&) const;
    template <>
-   Matrix<int> Communication::fromSlave<int>(const int) const;
+   Matrix<int64_t> Communication::fromSlave<int64_t>(const int) const;
 
    template <>
-   void Communication::toSlave<int>(const Row<int>&, const int) const;
+   void Communication::toSlave<int64_t>(const Row<int64_t>&, const int) const;
    template <>
-   Row<int> Communication::fromMaster<int>() const;
+   Row<int64_t> Communication::fromMaster<int64_t>() const;
 }
 
 #include "communication.eti"
-- 
2.43.0


From c8d957d09b7faa3a0ea2157f02cf81f085b6a121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:06 +0000
Subject: [PATCH 29/29] fix: rows without names are recognised in files with
 names whatever follows them

---
 src/input_constraint.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/input_constraint.cpp b/src/input_constraint.cpp
index 89d4190..73c5352 100644
--- a/src/input_constraint.cpp
+++ b/src/input_constraint.cpp
@@ -8,6 +8,7 @@
 #include "input_constraint.h"
 #undef COMPILE_TEMPLATE_INPUT_CONSTRAINT
 
+#include <sstream>
 #include <stdexcept>
 #include <string>
 
@@ -95,7 +96,14 @@ namespace
    template <ConstraintType type>
    Row<int> potentiallyNamedConstraint(std::istream& stream, const Names& names)
    {
-      if ( names.empty() || !input::containsNames(names, stream) )
+      // only the row itself decides: neither its identifier nor the following rows and sections matter
+      std::istringstream row(peekLine(stream));
+      input::skipWhitespace(row);
+      if ( input::isIdentifier(row) )
+      {
+         input::identifier(row);
+      }
+      if ( names.empty() || !input::containsNames(names, row) )
       {
          return input::implementation::constraint<type>(stream);
       }
-- 
2.43.0

