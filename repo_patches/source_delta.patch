From 1754e9fdb20fb842e4b152765d05726581a59e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 01/25] fix: let errors of Simplify reach the caller and keep
 the node intact

Simplify was noexcept although folding constants throws for an invalid number,
so Simplify("1/0") or Diff("x*log(0)") ended the process. The node was also
turned into a number before its value had been computed.
---
 single/include/tomsolver/tomsolver.h | 14 +++++++++-----
 src/tomsolver/simplify.cpp           |  8 ++++----
 src/tomsolver/simplify.h             |  6 +++++-
 3 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 5cae8a4..28e7a5d 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -2981,7 +2981,11 @@ inline Node Subs(Node &&node, const VarsTable &varsTable) noexcept {
 
 namespace tomsolver {
 
-inline void Simplify(Node &node) noexcept;
+/**
+ * 化简表达式。如果抛出异常，node的数值含义不变。
+ * @exception MathError 出现浮点数无效值(inf, -inf, nan)
+ */
+inline void Simplify(Node &node);
 
 } // namespace tomsolver
 
@@ -2999,14 +3003,14 @@ public:
     };
 
     // 对单节点n进行化简。
-    static void SimplifySingleNode(std::unique_ptr<NodeImpl> &n) noexcept {
+    static void SimplifySingleNode(std::unique_ptr<NodeImpl> &n) {
         auto parent = n->parent;
         switch (GetOperatorNum(n->op)) {
         // 对于1元运算符，且儿子是数字的，直接计算出来
         case 1:
             if (n->left->type == NodeType::NUMBER) {
-                n->type = NodeType::NUMBER;
                 n->value = tomsolver::Calc(n->op, n->left->value, 0);
+                n->type = NodeType::NUMBER;
                 n->op = MathOperator::MATH_NULL;
                 n->left = nullptr;
             }
@@ -3016,8 +3020,8 @@ public:
         case 2:
             // 儿子是数字的，直接计算出来
             if (n->left->type == NodeType::NUMBER && n->right->type == NodeType::NUMBER) {
-                n->type = NodeType::NUMBER;
                 n->value = tomsolver::Calc(n->op, n->left->value, n->right->value);
+                n->type = NodeType::NUMBER;
                 n->op = MathOperator::MATH_NULL;
                 n->left = nullptr;
                 n->right = nullptr;
@@ -3149,7 +3153,7 @@ public:
 
 } // namespace internal
 
-inline void Simplify(Node &node) noexcept {
+inline void Simplify(Node &node) {
     internal::SimplifyFunctions::SimplifyWholeNode(node);
     return;
 }
diff --git a/src/tomsolver/simplify.cpp b/src/tomsolver/simplify.cpp
index 98a9558..8ee6737 100644
--- a/src/tomsolver/simplify.cpp
+++ b/src/tomsolver/simplify.cpp
@@ -21,14 +21,14 @@ public:
     };
 
     // 对单节点n进行化简。
-    static void SimplifySingleNode(std::unique_ptr<NodeImpl> &n) noexcept {
+    static void SimplifySingleNode(std::unique_ptr<NodeImpl> &n) {
         auto parent = n->parent;
         switch (GetOperatorNum(n->op)) {
         // 对于1元运算符，且儿子是数字的，直接计算出来
         case 1:
             if (n->left->type == NodeType::NUMBER) {
-                n->type = NodeType::NUMBER;
                 n->value = tomsolver::Calc(n->op, n->left->value, 0);
+                n->type = NodeType::NUMBER;
                 n->op = MathOperator::MATH_NULL;
                 n->left = nullptr;
             }
@@ -38,8 +38,8 @@ public:
         case 2:
             // 儿子是数字的，直接计算出来
             if (n->left->type == NodeType::NUMBER && n->right->type == NodeType::NUMBER) {
-                n->type = NodeType::NUMBER;
                 n->value = tomsolver::Calc(n->op, n->left->value, n->right->value);
+                n->type = NodeType::NUMBER;
                 n->op = MathOperator::MATH_NULL;
                 n->left = nullptr;
                 n->right = nullptr;
@@ -171,7 +171,7 @@ public:
 
 } // namespace internal
 
-void Simplify(Node &node) noexcept {
+void Simplify(Node &node) {
     internal::SimplifyFunctions::SimplifyWholeNode(node);
     return;
 }
diff --git a/src/tomsolver/simplify.h b/src/tomsolver/simplify.h
index 97c6b38..4695a0a 100644
--- a/src/tomsolver/simplify.h
+++ b/src/tomsolver/simplify.h
@@ -3,6 +3,10 @@
 
 namespace tomsolver {
 
-void Simplify(Node &node) noexcept;
+/**
+ * 化简表达式。如果抛出异常，node的数值含义不变。
+ * @exception MathError 出现浮点数无效值(inf, -inf, nan)
+ */
+void Simplify(Node &node);
 
 } // namespace tomsolver
-- 
2.43.0


From 727e33d09aa117687986c290339f2476f81d80b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:00 +0000
Subject: [PATCH 02/25] fix: let errors of differentiation leave Jacobian as
 exceptions

Jacobian was noexcept, so solving a system with an operator that cannot be
differentiated (%, &, |), or whose derivative folds to an invalid number, ended
the process.
---
 single/include/tomsolver/tomsolver.h | 10 +++++++---
 src/tomsolver/symmat.cpp             |  2 +-
 src/tomsolver/symmat.h               |  8 ++++++--
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 28e7a5d..746a1a8 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -2782,7 +2782,7 @@ protected:
     int rows, cols;
     std::unique_ptr<std::valarray<Node>> data;
 
-    friend SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept;
+    friend SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars);
 };
 
 class SymVec : public SymMat {
@@ -2807,7 +2807,11 @@ public:
     const Node &operator[](std::size_t index) const noexcept;
 };
 
-inline SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept;
+/**
+ * @exception runtime_error 存在不支持求导的运算符
+ * @exception MathError 出现浮点数无效值(inf, -inf, nan)
+ */
+inline SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars);
 
 inline std::ostream &operator<<(std::ostream &out, const SymMat &symMat) noexcept;
 
@@ -4593,7 +4597,7 @@ inline const Node &SymVec::operator[](std::size_t index) const noexcept {
     return (*data)[index];
 }
 
-inline SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept {
+inline SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) {
     int rows = equations.rows;
     int cols = static_cast<int>(vars.size());
     SymMat ja(rows, cols);
diff --git a/src/tomsolver/symmat.cpp b/src/tomsolver/symmat.cpp
index 08ecb46..e9750d9 100644
--- a/src/tomsolver/symmat.cpp
+++ b/src/tomsolver/symmat.cpp
@@ -204,7 +204,7 @@ const Node &SymVec::operator[](std::size_t index) const noexcept {
     return (*data)[index];
 }
 
-SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept {
+SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) {
     int rows = equations.rows;
     int cols = static_cast<int>(vars.size());
     SymMat ja(rows, cols);
diff --git a/src/tomsolver/symmat.h b/src/tomsolver/symmat.h
index 9f4bda8..aaabfc8 100644
--- a/src/tomsolver/symmat.h
+++ b/src/tomsolver/symmat.h
@@ -97,7 +97,7 @@ protected:
     int rows, cols;
     std::unique_ptr<std::valarray<Node>> data;
 
-    friend SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept;
+    friend SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars);
 };
 
 class SymVec : public SymMat {
@@ -122,7 +122,11 @@ public:
     const Node &operator[](std::size_t index) const noexcept;
 };
 
-SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) noexcept;
+/**
+ * @exception runtime_error 存在不支持求导的运算符
+ * @exception MathError 出现浮点数无效值(inf, -inf, nan)
+ */
+SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars);
 
 std::ostream &operator<<(std::ostream &out, const SymMat &symMat) noexcept;
 
-- 
2.43.0


From f4e6d377c898fd310091820d03a6740dbf17002d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 03/25] fix: bound the line search and the LM iteration

Armijo never ended when a function value was nan, and SolveByLM never ended
with a negative iteration limit.
---
 single/include/tomsolver/tomsolver.h | 7 ++++---
 src/tomsolver/nonlinear.cpp          | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 746a1a8..d393bdf 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3739,7 +3739,8 @@ inline double Armijo(const Vec &x, const Vec &d, std::function<Vec(Vec)> f, std:
     double gamma = 0.4; // 取值范围(0, 0.5)越大越快
     double sigma = 0.5; // 取值范围(0, 1)越大越慢
     Vec x_new(x);
-    while (1) {
+    // alpha缩小到0仍不满足条件，说明出现了无效值，此时不再搜索
+    while (alpha > 0) {
         x_new = x + alpha * d;
 
         auto l = f(x_new).Norm2();
@@ -3951,7 +3952,7 @@ inline VarsTable SolveByLM(const SymVec &equations, const VarsTable &varsTable)
                 mu *= 10.0; // 扩大λ，使模型倾向梯度下降方向
             }
 
-            if (it++ == Config::Get().maxIterations) {
+            if (it++ >= Config::Get().maxIterations) {
                 throw runtime_error("迭代次数超出限制");
             }
         }
@@ -3962,7 +3963,7 @@ inline VarsTable SolveByLM(const SymVec &equations, const VarsTable &varsTable)
 
         F = FNew; // 更新F
 
-        if (it++ == Config::Get().maxIterations) {
+        if (it++ >= Config::Get().maxIterations) {
             throw runtime_error("迭代次数超出限制");
         }
 
diff --git a/src/tomsolver/nonlinear.cpp b/src/tomsolver/nonlinear.cpp
index dd1c74e..6127174 100644
--- a/src/tomsolver/nonlinear.cpp
+++ b/src/tomsolver/nonlinear.cpp
@@ -18,7 +18,8 @@ double Armijo(const Vec &x, const Vec &d, std::function<Vec(Vec)> f, std::functi
     double gamma = 0.4; // 取值范围(0, 0.5)越大越快
     double sigma = 0.5; // 取值范围(0, 1)越大越慢
     Vec x_new(x);
-    while (1) {
+    // alpha缩小到0仍不满足条件，说明出现了无效值，此时不再搜索
+    while (alpha > 0) {
         x_new = x + alpha * d;
 
         auto l = f(x_new).Norm2();
@@ -230,7 +231,7 @@ VarsTable SolveByLM(const SymVec &equations, const VarsTable &varsTable) {
                 mu *= 10.0; // 扩大λ，使模型倾向梯度下降方向
             }
 
-            if (it++ == Config::Get().maxIterations) {
+            if (it++ >= Config::Get().maxIterations) {
                 throw runtime_error("迭代次数超出限制");
             }
         }
@@ -241,7 +242,7 @@ VarsTable SolveByLM(const SymVec &equations, const VarsTable &varsTable) {
 
         F = FNew; // 更新F
 
-        if (it++ == Config::Get().maxIterations) {
+        if (it++ >= Config::Get().maxIterations) {
             throw runtime_error("迭代次数超出限制");
         }
 
-- 
2.43.0


From 9b00eefd73a6fd5123a1500a709ab3e0b31dd0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 04/25] fix: keep the pivot row inside the matrix when it
 contains nan

std::find never finds nan, so the pivot search returned the row after the last
one and SwapRow went out of bounds.
---
 single/include/tomsolver/tomsolver.h | 2 +-
 src/tomsolver/mat.cpp                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index d393bdf..9247ba1 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -2286,7 +2286,7 @@ inline bool AllIsLessThan(const Mat &v1, const Mat &v2) noexcept {
 inline int GetMaxAbsRowIndex(const Mat &A, int rowStart, int rowEnd, int col) noexcept {
     std::valarray<double> temp =
         std::valarray<double>(A.Col(col)[std::slice(rowStart, rowEnd - rowStart + 1, 1)]).apply(std::abs);
-    auto ret = std::distance(std::begin(temp), std::find(std::begin(temp), std::end(temp), temp.max())) + rowStart;
+    auto ret = std::distance(std::begin(temp), std::max_element(std::begin(temp), std::end(temp))) + rowStart;
     return static_cast<int>(ret);
 }
 
diff --git a/src/tomsolver/mat.cpp b/src/tomsolver/mat.cpp
index ee1e783..6a0c017 100644
--- a/src/tomsolver/mat.cpp
+++ b/src/tomsolver/mat.cpp
@@ -289,7 +289,7 @@ bool AllIsLessThan(const Mat &v1, const Mat &v2) noexcept {
 int GetMaxAbsRowIndex(const Mat &A, int rowStart, int rowEnd, int col) noexcept {
     std::valarray<double> temp =
         std::valarray<double>(A.Col(col)[std::slice(rowStart, rowEnd - rowStart + 1, 1)]).apply(std::abs);
-    auto ret = std::distance(std::begin(temp), std::find(std::begin(temp), std::end(temp), temp.max())) + rowStart;
+    auto ret = std::distance(std::begin(temp), std::max_element(std::begin(temp), std::end(temp))) + rowStart;
     return static_cast<int>(ret);
 }
 
-- 
2.43.0


From 6d45dca5d241b6c2ada6d5f32c1180b7b104cf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 05/25] fix: let stream errors reach the caller when printing
 and logging

The stream inserters and the log helpers were noexcept, so a failing stream
that was asked to throw ended the process.
---
 single/include/tomsolver/tomsolver.h | 26 +++++++++++++-------------
 src/tomsolver/mat.cpp                |  2 +-
 src/tomsolver/mat.h                  |  4 ++--
 src/tomsolver/node.cpp               |  2 +-
 src/tomsolver/node.h                 |  4 ++--
 src/tomsolver/nonlinear.cpp          |  6 +++---
 src/tomsolver/symmat.cpp             |  2 +-
 src/tomsolver/symmat.h               |  2 +-
 src/tomsolver/vars_table.cpp         |  2 +-
 src/tomsolver/vars_table.h           |  2 +-
 10 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 9247ba1..5a6c2ee 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -227,7 +227,7 @@ protected:
     std::valarray<double> data;
 
     friend Mat operator*(double k, const Mat &mat) noexcept;
-    friend std::ostream &operator<<(std::ostream &out, const Mat &mat) noexcept;
+    friend std::ostream &operator<<(std::ostream &out, const Mat &mat);
     friend Mat EachDivide(const Mat &a, const Mat &b) noexcept;
     friend bool IsZero(const Mat &mat) noexcept;
     friend bool AllIsLessThan(const Mat &v1, const Mat &v2) noexcept;
@@ -238,7 +238,7 @@ protected:
 
 inline Mat operator*(double k, const Mat &mat) noexcept;
 
-inline std::ostream &operator<<(std::ostream &out, const Mat &mat) noexcept;
+inline std::ostream &operator<<(std::ostream &out, const Mat &mat);
 
 inline Mat EachDivide(const Mat &a, const Mat &b) noexcept;
 
@@ -596,7 +596,7 @@ private:
     std::map<std::string, double> table;
 };
 
-inline std::ostream &operator<<(std::ostream &out, const VarsTable &table) noexcept;
+inline std::ostream &operator<<(std::ostream &out, const VarsTable &table);
 
 } // namespace tomsolver
 
@@ -692,7 +692,7 @@ inline double VarsTable::operator[](const std::string &varname) const {
     return it->second;
 }
 
-inline std::ostream &operator<<(std::ostream &out, const VarsTable &table) noexcept {
+inline std::ostream &operator<<(std::ostream &out, const VarsTable &table) {
     out << table.ToString();
     return out;
 }
@@ -820,7 +820,7 @@ private:
     friend void CopyOrMoveTo(NodeImpl *parent, Node &child, Node &&n1) noexcept;
     friend void CopyOrMoveTo(NodeImpl *parent, Node &child, const Node &n1) noexcept;
 
-    friend std::ostream &operator<<(std::ostream &out, const Node &n) noexcept;
+    friend std::ostream &operator<<(std::ostream &out, const Node &n);
 
     template <typename T>
     friend Node UnaryOperator(MathOperator op, T &&n) noexcept;
@@ -854,7 +854,7 @@ inline void CopyOrMoveTo(NodeImpl *parent, Node &child, const Node &n1) noexcept
 /**
  * 重载std::ostream的<<操作符以输出一个Node节点。
  */
-inline std::ostream &operator<<(std::ostream &out, const Node &n) noexcept;
+inline std::ostream &operator<<(std::ostream &out, const Node &n);
 
 template <typename T>
 inline Node UnaryOperator(MathOperator op, T &&n) noexcept {
@@ -1556,7 +1556,7 @@ inline void CopyOrMoveTo(NodeImpl *parent, Node &child, const Node &n1) noexcept
     child = std::move(n1Clone);
 }
 
-inline std::ostream &operator<<(std::ostream &out, const Node &n) noexcept {
+inline std::ostream &operator<<(std::ostream &out, const Node &n) {
     out << n->ToString();
     return out;
 }
@@ -2471,7 +2471,7 @@ inline double Dot(const Vec &a, const Vec &b) noexcept {
     return (a.data * b.data).sum();
 }
 
-inline std::ostream &operator<<(std::ostream &out, const Mat &mat) noexcept {
+inline std::ostream &operator<<(std::ostream &out, const Mat &mat) {
     return out << mat.ToString();
 }
 
@@ -2813,7 +2813,7 @@ public:
  */
 inline SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars);
 
-inline std::ostream &operator<<(std::ostream &out, const SymMat &symMat) noexcept;
+inline std::ostream &operator<<(std::ostream &out, const SymMat &symMat);
 
 } // namespace tomsolver
 
@@ -3787,7 +3787,7 @@ inline double FindAlpha(const Vec &x, const Vec &d, std::function<Vec(Vec)> f, d
 }
 
 namespace internal {
-inline void PrintSolveStartInfo(const SymVec &equations, const VarsTable &varsTable) noexcept {
+inline void PrintSolveStartInfo(const SymVec &equations, const VarsTable &varsTable) {
     if (Config::Get().logLevel >= LogLevel::INFO) {
         cout << "Solve start.\n";
         cout << "  Method: Newton Raphson\n";
@@ -3795,12 +3795,12 @@ inline void PrintSolveStartInfo(const SymVec &equations, const VarsTable &varsTa
         cout << "Inital Values:\n" + varsTable.ToString();
     }
 }
-inline void PrintJacobian(const SymMat &jaEqs) noexcept {
+inline void PrintJacobian(const SymMat &jaEqs) {
     if (Config::Get().logLevel >= LogLevel::TRACE) {
         cout << "Jacobian:\n" + jaEqs.ToString();
     }
 }
-inline void PrintAtIterationStart(int it) noexcept {
+inline void PrintAtIterationStart(int it) {
     if (Config::Get().logLevel >= LogLevel::INFO) {
         cout << std::string("==========") + "==========" + "\n";
         cout << "iteration times = " + std::to_string(it) + "\n";
@@ -4613,7 +4613,7 @@ inline SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &
     return ja;
 }
 
-inline std::ostream &operator<<(std::ostream &out, const SymMat &symMat) noexcept {
+inline std::ostream &operator<<(std::ostream &out, const SymMat &symMat) {
     return out << symMat.ToString();
 }
 
diff --git a/src/tomsolver/mat.cpp b/src/tomsolver/mat.cpp
index 6a0c017..198ec1d 100644
--- a/src/tomsolver/mat.cpp
+++ b/src/tomsolver/mat.cpp
@@ -474,7 +474,7 @@ double Dot(const Vec &a, const Vec &b) noexcept {
     return (a.data * b.data).sum();
 }
 
-std::ostream &operator<<(std::ostream &out, const Mat &mat) noexcept {
+std::ostream &operator<<(std::ostream &out, const Mat &mat) {
     return out << mat.ToString();
 }
 
diff --git a/src/tomsolver/mat.h b/src/tomsolver/mat.h
index ae7532c..5a0e94a 100644
--- a/src/tomsolver/mat.h
+++ b/src/tomsolver/mat.h
@@ -115,7 +115,7 @@ protected:
     std::valarray<double> data;
 
     friend Mat operator*(double k, const Mat &mat) noexcept;
-    friend std::ostream &operator<<(std::ostream &out, const Mat &mat) noexcept;
+    friend std::ostream &operator<<(std::ostream &out, const Mat &mat);
     friend Mat EachDivide(const Mat &a, const Mat &b) noexcept;
     friend bool IsZero(const Mat &mat) noexcept;
     friend bool AllIsLessThan(const Mat &v1, const Mat &v2) noexcept;
@@ -126,7 +126,7 @@ protected:
 
 Mat operator*(double k, const Mat &mat) noexcept;
 
-std::ostream &operator<<(std::ostream &out, const Mat &mat) noexcept;
+std::ostream &operator<<(std::ostream &out, const Mat &mat);
 
 Mat EachDivide(const Mat &a, const Mat &b) noexcept;
 
diff --git a/src/tomsolver/node.cpp b/src/tomsolver/node.cpp
index 2bc8831..b3707f2 100644
--- a/src/tomsolver/node.cpp
+++ b/src/tomsolver/node.cpp
@@ -587,7 +587,7 @@ void CopyOrMoveTo(NodeImpl *parent, Node &child, const Node &n1) noexcept {
     child = std::move(n1Clone);
 }
 
-std::ostream &operator<<(std::ostream &out, const Node &n) noexcept {
+std::ostream &operator<<(std::ostream &out, const Node &n) {
     out << n->ToString();
     return out;
 }
diff --git a/src/tomsolver/node.h b/src/tomsolver/node.h
index 353af17..656f8b8 100644
--- a/src/tomsolver/node.h
+++ b/src/tomsolver/node.h
@@ -133,7 +133,7 @@ private:
     friend void CopyOrMoveTo(NodeImpl *parent, Node &child, Node &&n1) noexcept;
     friend void CopyOrMoveTo(NodeImpl *parent, Node &child, const Node &n1) noexcept;
 
-    friend std::ostream &operator<<(std::ostream &out, const Node &n) noexcept;
+    friend std::ostream &operator<<(std::ostream &out, const Node &n);
 
     template <typename T>
     friend Node UnaryOperator(MathOperator op, T &&n) noexcept;
@@ -167,7 +167,7 @@ void CopyOrMoveTo(NodeImpl *parent, Node &child, const Node &n1) noexcept;
 /**
  * 重载std::ostream的<<操作符以输出一个Node节点。
  */
-std::ostream &operator<<(std::ostream &out, const Node &n) noexcept;
+std::ostream &operator<<(std::ostream &out, const Node &n);
 
 template <typename T>
 Node UnaryOperator(MathOperator op, T &&n) noexcept {
diff --git a/src/tomsolver/nonlinear.cpp b/src/tomsolver/nonlinear.cpp
index 6127174..dc1546f 100644
--- a/src/tomsolver/nonlinear.cpp
+++ b/src/tomsolver/nonlinear.cpp
@@ -66,7 +66,7 @@ double FindAlpha(const Vec &x, const Vec &d, std::function<Vec(Vec)> f, double u
 }
 
 namespace internal {
-void PrintSolveStartInfo(const SymVec &equations, const VarsTable &varsTable) noexcept {
+void PrintSolveStartInfo(const SymVec &equations, const VarsTable &varsTable) {
     if (Config::Get().logLevel >= LogLevel::INFO) {
         cout << "Solve start.\n";
         cout << "  Method: Newton Raphson\n";
@@ -74,12 +74,12 @@ void PrintSolveStartInfo(const SymVec &equations, const VarsTable &varsTable) no
         cout << "Inital Values:\n" + varsTable.ToString();
     }
 }
-void PrintJacobian(const SymMat &jaEqs) noexcept {
+void PrintJacobian(const SymMat &jaEqs) {
     if (Config::Get().logLevel >= LogLevel::TRACE) {
         cout << "Jacobian:\n" + jaEqs.ToString();
     }
 }
-void PrintAtIterationStart(int it) noexcept {
+void PrintAtIterationStart(int it) {
     if (Config::Get().logLevel >= LogLevel::INFO) {
         cout << std::string("==========") + "==========" + "\n";
         cout << "iteration times = " + std::to_string(it) + "\n";
diff --git a/src/tomsolver/symmat.cpp b/src/tomsolver/symmat.cpp
index e9750d9..59a625e 100644
--- a/src/tomsolver/symmat.cpp
+++ b/src/tomsolver/symmat.cpp
@@ -219,7 +219,7 @@ SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars) {
     return ja;
 }
 
-std::ostream &operator<<(std::ostream &out, const SymMat &symMat) noexcept {
+std::ostream &operator<<(std::ostream &out, const SymMat &symMat) {
     return out << symMat.ToString();
 }
 
diff --git a/src/tomsolver/symmat.h b/src/tomsolver/symmat.h
index aaabfc8..3ee1087 100644
--- a/src/tomsolver/symmat.h
+++ b/src/tomsolver/symmat.h
@@ -128,6 +128,6 @@ public:
  */
 SymMat Jacobian(const SymMat &equations, const std::vector<std::string> &vars);
 
-std::ostream &operator<<(std::ostream &out, const SymMat &symMat) noexcept;
+std::ostream &operator<<(std::ostream &out, const SymMat &symMat);
 
 } // namespace tomsolver
diff --git a/src/tomsolver/vars_table.cpp b/src/tomsolver/vars_table.cpp
index d41ed86..88ab41e 100644
--- a/src/tomsolver/vars_table.cpp
+++ b/src/tomsolver/vars_table.cpp
@@ -97,7 +97,7 @@ double VarsTable::operator[](const std::string &varname) const {
     return it->second;
 }
 
-std::ostream &operator<<(std::ostream &out, const VarsTable &table) noexcept {
+std::ostream &operator<<(std::ostream &out, const VarsTable &table) {
     out << table.ToString();
     return out;
 }
diff --git a/src/tomsolver/vars_table.h b/src/tomsolver/vars_table.h
index f89e859..613bbc1 100644
--- a/src/tomsolver/vars_table.h
+++ b/src/tomsolver/vars_table.h
@@ -84,6 +84,6 @@ private:
     std::map<std::string, double> table;
 };
 
-std::ostream &operator<<(std::ostream &out, const VarsTable &table) noexcept;
+std::ostream &operator<<(std::ostream &out, const VarsTable &table);
 
 } // namespace tomsolver
\ No newline at end of file
-- 
2.43.0


From 6a5a290fe50c6c7aece1743f0aadbfdcc26c6db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 06/25] fix: check variable names without std::regex

Matching recursed once per character and overflowed the stack for long names,
and which characters count as letters depended on the global locale.
---
 single/include/tomsolver/tomsolver.h | 11 ++++++++++-
 src/tomsolver/node.cpp               | 12 ++++++++++--
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 5a6c2ee..fe26e7a 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -1630,7 +1630,16 @@ inline Node Op(MathOperator op) {
 }
 
 inline bool VarNameIsLegal(const std::string &varname) noexcept {
-    return std::regex_match(varname.begin(), varname.end(), std::regex{R"((?=\w)\D\w*)"});
+    // 不使用std::regex：它的匹配是递归的，名字很长时会栈溢出；而且它受locale影响
+    auto isLetter = [](char c) {
+        return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_';
+    };
+    auto isDigit = [](char c) {
+        return c >= '0' && c <= '9';
+    };
+    return !varname.empty() && isLetter(varname[0]) && std::all_of(varname.begin(), varname.end(), [&](char c) {
+        return isLetter(c) || isDigit(c);
+    });
 }
 
 inline Node Var(std::string varname) {
diff --git a/src/tomsolver/node.cpp b/src/tomsolver/node.cpp
index b3707f2..eaa308a 100644
--- a/src/tomsolver/node.cpp
+++ b/src/tomsolver/node.cpp
@@ -3,13 +3,13 @@
 #include "config.h"
 #include "math_operator.h"
 
+#include <algorithm>
 #include <cassert>
 #include <forward_list>
 #include <functional>
 #include <iostream>
 #include <limits>
 #include <memory>
-#include <regex>
 #include <stack>
 #include <string>
 #include <type_traits>
@@ -661,7 +661,15 @@ Node Op(MathOperator op) {
 }
 
 bool VarNameIsLegal(const std::string &varname) noexcept {
-    return std::regex_match(varname.begin(), varname.end(), std::regex{R"((?=\w)\D\w*)"});
+    // 不使用std::regex：它的匹配是递归的，名字很长时会栈溢出；而且它受locale影响
+    auto isLetter = [](char c) {
+        return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_';
+    };
+    auto isDigit = [](char c) {
+        return c >= '0' && c <= '9';
+    };
+    return !varname.empty() && isLetter(varname[0]) &&
+           std::all_of(varname.begin(), varname.end(), [&](char c) { return isLetter(c) || isDigit(c); });
 }
 
 Node Var(std::string varname) {
-- 
2.43.0


From 532149d7dd3b21bc60e57f6919379ece4482992e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 07/25] fix: destroy expressions without allocating memory

The destructor pushed the nodes onto a std::stack, so the process ended when
memory ran out while an expression was being destroyed.
---
 single/include/tomsolver/tomsolver.h | 39 +++++++++++-----------------
 src/tomsolver/node.cpp               | 39 +++++++++++-----------------
 2 files changed, 30 insertions(+), 48 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index fe26e7a..8d13d9c 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -1462,35 +1462,26 @@ inline double NodeImpl::VpaNonRecursively() const {
     return calcStk.top();
 }
 
-// 后序遍历。因为要在左右儿子都没有的情况下删除节点。
+// 非递归，且不申请内存（析构时内存可能已经耗尽）。
 inline void NodeImpl::Release() noexcept {
-    std::stack<Node> stk;
+    auto releaseTree = [](Node node) {
+        while (node) {
+            if (node->left) {
+                // 右旋：左儿子取代node的位置，node成为它的右儿子
+                auto child = std::move(node->left);
+                node->left = std::move(child->right);
+                child->right = std::move(node);
+                node = std::move(child);
+                continue;
+            }
 
-    auto emplaceNode = [&stk](Node node) {
-        if (node) {
-            stk.emplace(std::move(node));
+            // 没有左儿子：node会被自动释放，继续处理右儿子
+            node = std::move(node->right);
         }
     };
 
-    auto emplaceChildren = [&emplaceNode](NodeImpl &node) {
-        emplaceNode(std::move(node.left));
-        emplaceNode(std::move(node.right));
-    };
-
-    emplaceChildren(*this);
-
-    while (!stk.empty()) {
-        auto node = std::move(stk.top());
-        stk.pop();
-
-        emplaceChildren(*node);
-
-        assert(!node->left && !node->right);
-
-        // 这里如果把node填入vector，最后翻转。得到的序列就是后序遍历。
-
-        // 这里node会被自动释放。
-    }
+    releaseTree(std::move(left));
+    releaseTree(std::move(right));
 }
 
 inline Node CloneRecursively(const Node &src) noexcept {
diff --git a/src/tomsolver/node.cpp b/src/tomsolver/node.cpp
index eaa308a..5cb67e3 100644
--- a/src/tomsolver/node.cpp
+++ b/src/tomsolver/node.cpp
@@ -493,35 +493,26 @@ double NodeImpl::VpaNonRecursively() const {
     return calcStk.top();
 }
 
-// 后序遍历。因为要在左右儿子都没有的情况下删除节点。
+// 非递归，且不申请内存（析构时内存可能已经耗尽）。
 void NodeImpl::Release() noexcept {
-    std::stack<Node> stk;
+    auto releaseTree = [](Node node) {
+        while (node) {
+            if (node->left) {
+                // 右旋：左儿子取代node的位置，node成为它的右儿子
+                auto child = std::move(node->left);
+                node->left = std::move(child->right);
+                child->right = std::move(node);
+                node = std::move(child);
+                continue;
+            }
 
-    auto emplaceNode = [&stk](Node node) {
-        if (node) {
-            stk.emplace(std::move(node));
+            // 没有左儿子：node会被自动释放，继续处理右儿子
+            node = std::move(node->right);
         }
     };
 
-    auto emplaceChildren = [&emplaceNode](NodeImpl &node) {
-        emplaceNode(std::move(node.left));
-        emplaceNode(std::move(node.right));
-    };
-
-    emplaceChildren(*this);
-
-    while (!stk.empty()) {
-        auto node = std::move(stk.top());
-        stk.pop();
-
-        emplaceChildren(*node);
-
-        assert(!node->left && !node->right);
-
-        // 这里如果把node填入vector，最后翻转。得到的序列就是后序遍历。
-
-        // 这里node会被自动释放。
-    }
+    releaseTree(std::move(left));
+    releaseTree(std::move(right));
 }
 
 Node CloneRecursively(const Node &src) noexcept {
-- 
2.43.0


From d30a74633495fb323fd938cf16b754190d6005fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:55 +0000
Subject: [PATCH 08/25] fix: allow combining an expression with itself in place

n += n (and -=, *=, /=, ^=) moved n away before copying it and dereferenced a
null pointer.
---
 single/include/tomsolver/tomsolver.h | 10 ++++++++--
 src/tomsolver/node.h                 | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 8d13d9c..c2206ea 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -866,8 +866,14 @@ inline Node UnaryOperator(MathOperator op, T &&n) noexcept {
 template <typename T1, typename T2>
 inline Node BinaryOperator(MathOperator op, T1 &&n1, T2 &&n2) noexcept {
     auto ret = std::make_unique<NodeImpl>(NodeType::OPERATOR, op, 0, "");
-    CopyOrMoveTo(ret.get(), ret->left, std::forward<T1>(n1));
-    CopyOrMoveTo(ret.get(), ret->right, std::forward<T2>(n2));
+    // n1, n2可能是同一个对象（例如 n += n），所以先拷贝后移动
+    if (std::is_lvalue_reference<T2>::value) {
+        CopyOrMoveTo(ret.get(), ret->right, std::forward<T2>(n2));
+        CopyOrMoveTo(ret.get(), ret->left, std::forward<T1>(n1));
+    } else {
+        CopyOrMoveTo(ret.get(), ret->left, std::forward<T1>(n1));
+        CopyOrMoveTo(ret.get(), ret->right, std::forward<T2>(n2));
+    }
     return ret;
 }
 
diff --git a/src/tomsolver/node.h b/src/tomsolver/node.h
index 656f8b8..c1946d7 100644
--- a/src/tomsolver/node.h
+++ b/src/tomsolver/node.h
@@ -179,8 +179,14 @@ Node UnaryOperator(MathOperator op, T &&n) noexcept {
 template <typename T1, typename T2>
 Node BinaryOperator(MathOperator op, T1 &&n1, T2 &&n2) noexcept {
     auto ret = std::make_unique<NodeImpl>(NodeType::OPERATOR, op, 0, "");
-    CopyOrMoveTo(ret.get(), ret->left, std::forward<T1>(n1));
-    CopyOrMoveTo(ret.get(), ret->right, std::forward<T2>(n2));
+    // n1, n2可能是同一个对象（例如 n += n），所以先拷贝后移动
+    if (std::is_lvalue_reference<T2>::value) {
+        CopyOrMoveTo(ret.get(), ret->right, std::forward<T2>(n2));
+        CopyOrMoveTo(ret.get(), ret->left, std::forward<T1>(n1));
+    } else {
+        CopyOrMoveTo(ret.get(), ret->left, std::forward<T1>(n1));
+        CopyOrMoveTo(ret.get(), ret->right, std::forward<T2>(n2));
+    }
     return ret;
 }
 
-- 
2.43.0


From 2fd1a0813cb85731ed4b7027d8189258bf0d45a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 09/25] fix: report a remainder by zero as an invalid number

5%0 raised SIGFPE.
---
 single/include/tomsolver/tomsolver.h | 5 ++++-
 src/tomsolver/math_operator.cpp      | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index c2206ea..efa4582 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -1955,7 +1955,10 @@ inline double Calc(MathOperator op, double v1, double v2) {
         break;
 
     case MathOperator::MATH_MOD: //%
-        ret = (int)v1 % (int)v2;
+        // 除数是0时结果无效；除数是-1时余数总是0（INT_MIN % -1会溢出）
+        if ((int)v2 != 0) {
+            ret = (int)v2 == -1 ? 0 : (int)v1 % (int)v2;
+        }
         break;
     case MathOperator::MATH_AND: //&
         ret = (int)v1 & (int)v2;
diff --git a/src/tomsolver/math_operator.cpp b/src/tomsolver/math_operator.cpp
index 0872c01..23e4a2a 100644
--- a/src/tomsolver/math_operator.cpp
+++ b/src/tomsolver/math_operator.cpp
@@ -314,7 +314,10 @@ double Calc(MathOperator op, double v1, double v2) {
         break;
 
     case MathOperator::MATH_MOD: //%
-        ret = (int)v1 % (int)v2;
+        // 除数是0时结果无效；除数是-1时余数总是0（INT_MIN % -1会溢出）
+        if ((int)v2 != 0) {
+            ret = (int)v2 == -1 ? 0 : (int)v1 % (int)v2;
+        }
         break;
     case MathOperator::MATH_AND: //&
         ret = (int)v1 & (int)v2;
-- 
2.43.0


From 88045180bb75760df383dfad2cb0162fef447a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 10/25] fix: reject blank text, empty and surplus parentheses

Parse(" "), Parse("()") and Parse("(1))") took the top of an empty stack.
---
 single/include/tomsolver/tomsolver.h | 6 ++++++
 src/tomsolver/parse.cpp              | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index efa4582..2f7e039 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3551,6 +3551,7 @@ inline std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &
             if (parenthesisBalance == 0) {
                 throw SingleParseError(f.line, f.pos, f.content, "Parenthesis not match: \"", f.s, "\"");
             }
+            parenthesisBalance--;
             for (auto token = popToken(); token.node->op != MathOperator::MATH_LEFT_PARENTHESIS; token = popToken()) {
                 postOrder.emplace_back(std::move(token));
             }
@@ -3674,6 +3675,11 @@ inline Node ParseFunctions::BuildExpressionTree(std::vector<Token> &postOrder) {
         throw MultiParseError(errors);
     }
 
+    // 没有任何操作数。例如 "()"
+    if (tokenStack.empty()) {
+        throw MathError{ErrorType::ERROR_WRONG_EXPRESSION};
+    }
+
     return popNode();
 }
 
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index 509ea18..2b895c1 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -245,6 +245,7 @@ std::vector<Token> ParseFunctions::InOrderToPostOrder(std::deque<Token> &inOrder
             if (parenthesisBalance == 0) {
                 throw SingleParseError(f.line, f.pos, f.content, "Parenthesis not match: \"", f.s, "\"");
             }
+            parenthesisBalance--;
             for (auto token = popToken(); token.node->op != MathOperator::MATH_LEFT_PARENTHESIS; token = popToken()) {
                 postOrder.emplace_back(std::move(token));
             }
@@ -368,6 +369,11 @@ Node ParseFunctions::BuildExpressionTree(std::vector<Token> &postOrder) {
         throw MultiParseError(errors);
     }
 
+    // 没有任何操作数。例如 "()"
+    if (tokenStack.empty()) {
+        throw MathError{ErrorType::ERROR_WRONG_EXPRESSION};
+    }
+
     return popNode();
 }
 
-- 
2.43.0


From fa7bdf9b6ca6e7e6d106abbc060758a88796c9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:00 +0000
Subject: [PATCH 11/25] fix: use an identity of the size of J'J in SolveByLM

For a Jacobian that is not square Mat::Ones ended the process (or, with
NDEBUG, wrote outside the matrix).
---
 single/include/tomsolver/tomsolver.h | 2 +-
 src/tomsolver/nonlinear.cpp          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 2f7e039..ee06ea5 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3917,7 +3917,7 @@ inline VarsTable SolveByLM(const SymVec &equations, const VarsTable &varsTable)
             // 牛顿法的 d=-(J+λI)^(-1)*F
 
             // 方向向量
-            Vec d = SolveLinear(J.Transpose() * J + mu * Mat(J.Rows(), J.Cols()).Ones(),
+            Vec d = SolveLinear(J.Transpose() * J + mu * Mat(J.Cols(), J.Cols()).Ones(),
                                 -(J.Transpose() * F).ToVec()); // 得到d
 
             if (Config::Get().logLevel >= LogLevel::TRACE) {
diff --git a/src/tomsolver/nonlinear.cpp b/src/tomsolver/nonlinear.cpp
index dc1546f..7be1b97 100644
--- a/src/tomsolver/nonlinear.cpp
+++ b/src/tomsolver/nonlinear.cpp
@@ -181,7 +181,7 @@ VarsTable SolveByLM(const SymVec &equations, const VarsTable &varsTable) {
             // 牛顿法的 d=-(J+λI)^(-1)*F
 
             // 方向向量
-            Vec d = SolveLinear(J.Transpose() * J + mu * Mat(J.Rows(), J.Cols()).Ones(),
+            Vec d = SolveLinear(J.Transpose() * J + mu * Mat(J.Cols(), J.Cols()).Ones(),
                                 -(J.Transpose() * F).ToVec()); // 得到d
 
             if (Config::Get().logLevel >= LogLevel::TRACE) {
-- 
2.43.0


From f8fbf298fcee26b626342058c1098c3f2b253994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 12/25] fix: report equations without any variable as an error

Solve built an empty variable table for them, which ended the process.
---
 single/include/tomsolver/tomsolver.h | 3 +++
 src/tomsolver/nonlinear.cpp          | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index ee06ea5..d3a6251 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -4007,6 +4007,9 @@ inline VarsTable Solve(const SymVec &equations, const VarsTable &varsTable) {
 
 inline VarsTable Solve(const SymVec &equations) {
     auto varNames = equations.GetAllVarNames();
+    if (varNames.empty()) {
+        throw MathError(ErrorType::ERROR_UNDEFINED_VARIABLE, "no variable in the equations");
+    }
     std::vector<std::string> vecVarNames(varNames.begin(), varNames.end());
     VarsTable varsTable(std::move(vecVarNames), Config::Get().initialValue);
     return Solve(equations, varsTable);
diff --git a/src/tomsolver/nonlinear.cpp b/src/tomsolver/nonlinear.cpp
index 7be1b97..c3121de 100644
--- a/src/tomsolver/nonlinear.cpp
+++ b/src/tomsolver/nonlinear.cpp
@@ -271,6 +271,9 @@ VarsTable Solve(const SymVec &equations, const VarsTable &varsTable) {
 
 VarsTable Solve(const SymVec &equations) {
     auto varNames = equations.GetAllVarNames();
+    if (varNames.empty()) {
+        throw MathError(ErrorType::ERROR_UNDEFINED_VARIABLE, "no variable in the equations");
+    }
     std::vector<std::string> vecVarNames(varNames.begin(), varNames.end());
     VarsTable varsTable(std::move(vecVarNames), Config::Get().initialValue);
     return Solve(equations, varsTable);
-- 
2.43.0


From 0c63e9558988e9d30db8fb171bea87411e068d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 13/25] fix: read and print numbers independently of the locale

std::stod and snprintf use the decimal point of the process or thread locale,
isspace its character classes, and the stringstream in SingleParseError the
digit grouping of the global C++ locale.
---
 single/include/tomsolver/tomsolver.h | 62 ++++++++++++++++++++++++----
 src/tomsolver/config.cpp             | 26 ++++++++++++
 src/tomsolver/parse.cpp              | 34 ++++++++++++---
 src/tomsolver/parse.h                |  2 +-
 4 files changed, 111 insertions(+), 13 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index d3a6251..d03a278 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -4,7 +4,6 @@
 #include <algorithm>
 #include <array>
 #include <cassert>
-#include <cctype>
 #include <clocale>
 #include <cmath>
 #include <cstdio>
@@ -480,12 +479,36 @@ namespace tomsolver {
 
 namespace {
 
+/**
+ * 把buf内的小数点统一为"."。snprintf输出的小数点随locale（含线程的locale）而变，可能有多个字节。
+ */
+inline void NormalizeDecimalPoint(char *buf) noexcept {
+    auto isDigit = [](char c) {
+        return c >= '0' && c <= '9';
+    };
+    auto first = *buf == '-' ? buf + 1 : buf;
+    auto point = first;
+    while (isDigit(*point)) {
+        ++point;
+    }
+    // inf或nan没有小数点
+    if (point == first || *point == '\0') {
+        return;
+    }
+    auto fraction = point;
+    while (*fraction && !isDigit(*fraction)) {
+        ++fraction;
+    }
+    *point = '.';
+    std::memmove(point + 1, fraction, std::strlen(fraction) + 1);
+}
+
 static const std::tuple<const char *, std::regex> strategies[] = {
     {"%.16e", std::regex{"\\.?0+(?=e)"}},
     {"%.16f", std::regex{"\\.?0+(?=$)"}},
 };
 
-}
+} // namespace
 
 inline std::string ToString(double value) noexcept {
     if (value == 0.0) {
@@ -504,6 +527,7 @@ inline std::string ToString(double value) noexcept {
     auto &re = std::get<1>(strategy);
 
     snprintf(buf, sizeof(buf), fmt, value);
+    NormalizeDecimalPoint(buf);
     return std::regex_replace(buf, re, "");
 }
 
@@ -3242,7 +3266,7 @@ public:
 
         ss << "[Parse Error] ";
         internal::append(ss, std::forward<T>(errInfo)...);
-        ss << " at(" << line << ", " << pos << "):\n"
+        ss << " at(" << std::to_string(line) << ", " << std::to_string(pos) << "):\n"
            << content << "\n"
            << std::string(pos, ' ') << "^---- error position";
 
@@ -3358,6 +3382,18 @@ inline bool IsBasicOperator(char c) noexcept {
     return false;
 }
 
+/* 空白字符。不使用isspace，因为它受locale影响 */
+inline bool IsSpace(char c) noexcept {
+    return c == ' ' || (c >= '\t' && c <= '\r');
+}
+
+/* 当前locale（含线程的locale）的小数点，可能有多个字节 */
+inline std::string LocaleDecimalPoint() {
+    char buf[32];
+    auto len = snprintf(buf, sizeof(buf), "%.1f", 0.5); // 0.5
+    return {buf + 1, buf + len - 1};
+}
+
 /*  */
 inline MathOperator BaseOperatorCharToEnum(char c, bool unary) noexcept {
     switch (c) {
@@ -3461,11 +3497,23 @@ inline std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
             auto &token = ret.back();
 
             auto expStr = exp.toString();
-            // 检验是否为浮点数
+            // 检验是否为浮点数。表达式里的小数点总是"."，而std::stod使用当前locale（含线程的locale）的小数点
+            auto numStr = expStr;
+            const auto localePoint = LocaleDecimalPoint();
+            if (localePoint != ".") {
+                for (auto &c : numStr) {
+                    // 表达式里的localePoint不是小数点，替换为不可能出现在浮点数里的字符
+                    c = localePoint.find(c) == std::string::npos ? c : '?';
+                }
+                for (auto pos = numStr.find('.'); pos != std::string::npos;
+                     pos = numStr.find('.', pos + localePoint.size())) {
+                    numStr.replace(pos, 1, localePoint);
+                }
+            }
             try {
                 std::size_t sz;
-                auto d = std::stod(expStr, &sz);
-                if (sz == expStr.size()) {
+                auto d = std::stod(numStr, &sz);
+                if (sz == numStr.size()) {
                     token.node = Num(d);
                     return;
                 }
@@ -3497,7 +3545,7 @@ inline std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
                              content);
             ret.back().node = Op(BaseOperatorCharToEnum(*iter, unaryOp));
             nameIter = ++iter;
-        } else if (isspace(*iter)) {
+        } else if (IsSpace(*iter)) {
             // 忽略tab (\t) whitespaces (\n, \v, \f, \r) space
             tryComfirmToken();
             nameIter = ++iter;
diff --git a/src/tomsolver/config.cpp b/src/tomsolver/config.cpp
index c642420..89b467d 100644
--- a/src/tomsolver/config.cpp
+++ b/src/tomsolver/config.cpp
@@ -2,6 +2,7 @@
 
 #include <array>
 #include <cstdio>
+#include <cstring>
 #include <regex>
 #include <tuple>
 
@@ -9,6 +10,30 @@ namespace tomsolver {
 
 namespace {
 
+/**
+ * 把buf内的小数点统一为"."。snprintf输出的小数点随locale（含线程的locale）而变，可能有多个字节。
+ */
+void NormalizeDecimalPoint(char *buf) noexcept {
+    auto isDigit = [](char c) {
+        return c >= '0' && c <= '9';
+    };
+    auto first = *buf == '-' ? buf + 1 : buf;
+    auto point = first;
+    while (isDigit(*point)) {
+        ++point;
+    }
+    // inf或nan没有小数点
+    if (point == first || *point == '\0') {
+        return;
+    }
+    auto fraction = point;
+    while (*fraction && !isDigit(*fraction)) {
+        ++fraction;
+    }
+    *point = '.';
+    std::memmove(point + 1, fraction, std::strlen(fraction) + 1);
+}
+
 static const std::tuple<const char *, std::regex> strategies[] = {
     {"%.16e", std::regex{"\\.?0+(?=e)"}},
     {"%.16f", std::regex{"\\.?0+(?=$)"}},
@@ -33,6 +58,7 @@ std::string ToString(double value) noexcept {
     auto &re = std::get<1>(strategy);
 
     snprintf(buf, sizeof(buf), fmt, value);
+    NormalizeDecimalPoint(buf);
     return std::regex_replace(buf, re, "");
 }
 
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index 2b895c1..8e9a940 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -5,7 +5,7 @@
 #include "node.h"
 #include <algorithm>
 #include <cassert>
-#include <cctype>
+#include <cstdio>
 #include <functional>
 #include <iterator>
 #include <sstream>
@@ -52,6 +52,18 @@ bool IsBasicOperator(char c) noexcept {
     return false;
 }
 
+/* 空白字符。不使用isspace，因为它受locale影响 */
+bool IsSpace(char c) noexcept {
+    return c == ' ' || (c >= '\t' && c <= '\r');
+}
+
+/* 当前locale（含线程的locale）的小数点，可能有多个字节 */
+std::string LocaleDecimalPoint() {
+    char buf[32];
+    auto len = snprintf(buf, sizeof(buf), "%.1f", 0.5); // 0.5
+    return {buf + 1, buf + len - 1};
+}
+
 /*  */
 MathOperator BaseOperatorCharToEnum(char c, bool unary) noexcept {
     switch (c) {
@@ -155,11 +167,23 @@ std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
             auto &token = ret.back();
 
             auto expStr = exp.toString();
-            // 检验是否为浮点数
+            // 检验是否为浮点数。表达式里的小数点总是"."，而std::stod使用当前locale（含线程的locale）的小数点
+            auto numStr = expStr;
+            const auto localePoint = LocaleDecimalPoint();
+            if (localePoint != ".") {
+                for (auto &c : numStr) {
+                    // 表达式里的localePoint不是小数点，替换为不可能出现在浮点数里的字符
+                    c = localePoint.find(c) == std::string::npos ? c : '?';
+                }
+                for (auto pos = numStr.find('.'); pos != std::string::npos;
+                     pos = numStr.find('.', pos + localePoint.size())) {
+                    numStr.replace(pos, 1, localePoint);
+                }
+            }
             try {
                 std::size_t sz;
-                auto d = std::stod(expStr, &sz);
-                if (sz == expStr.size()) {
+                auto d = std::stod(numStr, &sz);
+                if (sz == numStr.size()) {
                     token.node = Num(d);
                     return;
                 }
@@ -191,7 +215,7 @@ std::deque<Token> ParseFunctions::ParseToTokens(StringView content) {
                              content);
             ret.back().node = Op(BaseOperatorCharToEnum(*iter, unaryOp));
             nameIter = ++iter;
-        } else if (isspace(*iter)) {
+        } else if (IsSpace(*iter)) {
             // 忽略tab (\t) whitespaces (\n, \v, \f, \r) space
             tryComfirmToken();
             nameIter = ++iter;
diff --git a/src/tomsolver/parse.h b/src/tomsolver/parse.h
index 64aed7e..5310a8f 100644
--- a/src/tomsolver/parse.h
+++ b/src/tomsolver/parse.h
@@ -76,7 +76,7 @@ public:
 
         ss << "[Parse Error] ";
         internal::append(ss, std::forward<T>(errInfo)...);
-        ss << " at(" << line << ", " << pos << "):\n"
+        ss << " at(" << std::to_string(line) << ", " << std::to_string(pos) << "):\n"
            << content << "\n"
            << std::string(pos, ' ') << "^---- error position";
 
-- 
2.43.0


From bd8a07649d13fe50c83c67d9d66bf37c04cc518d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 14/25] fix: do not lose text silently when memory runs out

A string stream swallows std::bad_alloc and goes on with truncated text, so
ToString and the texts of errors could be incomplete.
---
 single/include/tomsolver/tomsolver.h | 6 ++++++
 src/tomsolver/mat.cpp                | 1 +
 src/tomsolver/math_operator.cpp      | 1 +
 src/tomsolver/node.cpp               | 1 +
 src/tomsolver/parse.cpp              | 1 +
 src/tomsolver/parse.h                | 1 +
 src/tomsolver/symmat.cpp             | 1 +
 7 files changed, 12 insertions(+)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index d03a278..1f1c10c 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -1150,6 +1150,7 @@ inline bool NodeImpl::Equal(const Node &other) const noexcept {
 
 inline std::string NodeImpl::ToString() const noexcept {
     std::stringstream ss;
+    ss.exceptions(std::ios_base::badbit); // 内存不足时不能得到残缺的结果
     ToStringNonRecursively(ss);
     return ss.str();
 }
@@ -2021,6 +2022,7 @@ inline double Calc(MathOperator op, double v1, double v2) {
     if (isInvalid) {
         // std::string info;
         std::stringstream info;
+        info.exceptions(std::ios_base::badbit); // 内存不足时不能得到残缺的结果
         info << "expression: \"";
         switch (GetOperatorNum(op)) {
         case 1:
@@ -2200,6 +2202,7 @@ inline std::string Mat::ToString() const noexcept {
     }
 
     std::stringstream ss;
+    ss.exceptions(std::ios_base::badbit); // 内存不足时不能得到残缺的结果
     ss << "[";
 
     size_t i = 0;
@@ -3263,6 +3266,7 @@ public:
     SingleParseError(int line, int pos, internal::StringView content, T &&...errInfo)
         : line(line), pos(pos), content(content) {
         std::stringstream ss;
+        ss.exceptions(std::ios_base::badbit); // 内存不足时不能得到残缺的结果
 
         ss << "[Parse Error] ";
         internal::append(ss, std::forward<T>(errInfo)...);
@@ -3468,6 +3472,7 @@ inline int SingleParseError::GetPos() const noexcept {
 
 inline MultiParseError::MultiParseError(const std::vector<SingleParseError> &parseErrors) : parseErrors(parseErrors) {
     std::stringstream ss;
+    ss.exceptions(std::ios_base::badbit); // 内存不足时不能得到残缺的结果
     std::transform(parseErrors.rbegin(), parseErrors.rend(), std::ostream_iterator<const char *>(ss, "\n"),
                    [](const auto &err) {
                        return err.what();
@@ -4631,6 +4636,7 @@ inline std::string SymMat::ToString() const noexcept {
     }
 
     std::stringstream ss;
+    ss.exceptions(std::ios_base::badbit); // 内存不足时不能得到残缺的结果
     ss << "[";
 
     size_t i = 0;
diff --git a/src/tomsolver/mat.cpp b/src/tomsolver/mat.cpp
index 198ec1d..c525f4a 100644
--- a/src/tomsolver/mat.cpp
+++ b/src/tomsolver/mat.cpp
@@ -170,6 +170,7 @@ std::string Mat::ToString() const noexcept {
     }
 
     std::stringstream ss;
+    ss.exceptions(std::ios_base::badbit); // 内存不足时不能得到残缺的结果
     ss << "[";
 
     size_t i = 0;
diff --git a/src/tomsolver/math_operator.cpp b/src/tomsolver/math_operator.cpp
index 23e4a2a..aaa6627 100644
--- a/src/tomsolver/math_operator.cpp
+++ b/src/tomsolver/math_operator.cpp
@@ -356,6 +356,7 @@ double Calc(MathOperator op, double v1, double v2) {
     if (isInvalid) {
         // std::string info;
         std::stringstream info;
+        info.exceptions(std::ios_base::badbit); // 内存不足时不能得到残缺的结果
         info << "expression: \"";
         switch (GetOperatorNum(op)) {
         case 1:
diff --git a/src/tomsolver/node.cpp b/src/tomsolver/node.cpp
index 5cb67e3..73f3d5d 100644
--- a/src/tomsolver/node.cpp
+++ b/src/tomsolver/node.cpp
@@ -151,6 +151,7 @@ bool NodeImpl::Equal(const Node &other) const noexcept {
 
 std::string NodeImpl::ToString() const noexcept {
     std::stringstream ss;
+    ss.exceptions(std::ios_base::badbit); // 内存不足时不能得到残缺的结果
     ToStringNonRecursively(ss);
     return ss.str();
 }
diff --git a/src/tomsolver/parse.cpp b/src/tomsolver/parse.cpp
index 8e9a940..0fa3b96 100644
--- a/src/tomsolver/parse.cpp
+++ b/src/tomsolver/parse.cpp
@@ -138,6 +138,7 @@ int SingleParseError::GetPos() const noexcept {
 
 MultiParseError::MultiParseError(const std::vector<SingleParseError> &parseErrors) : parseErrors(parseErrors) {
     std::stringstream ss;
+    ss.exceptions(std::ios_base::badbit); // 内存不足时不能得到残缺的结果
     std::transform(parseErrors.rbegin(), parseErrors.rend(), std::ostream_iterator<const char *>(ss, "\n"),
                    [](const auto &err) {
                        return err.what();
diff --git a/src/tomsolver/parse.h b/src/tomsolver/parse.h
index 5310a8f..2363c76 100644
--- a/src/tomsolver/parse.h
+++ b/src/tomsolver/parse.h
@@ -73,6 +73,7 @@ public:
     SingleParseError(int line, int pos, internal::StringView content, T &&...errInfo)
         : line(line), pos(pos), content(content) {
         std::stringstream ss;
+        ss.exceptions(std::ios_base::badbit); // 内存不足时不能得到残缺的结果
 
         ss << "[Parse Error] ";
         internal::append(ss, std::forward<T>(errInfo)...);
diff --git a/src/tomsolver/symmat.cpp b/src/tomsolver/symmat.cpp
index 59a625e..3152a61 100644
--- a/src/tomsolver/symmat.cpp
+++ b/src/tomsolver/symmat.cpp
@@ -171,6 +171,7 @@ std::string SymMat::ToString() const noexcept {
     }
 
     std::stringstream ss;
+    ss.exceptions(std::ios_base::badbit); // 内存不足时不能得到残缺的结果
     ss << "[";
 
     size_t i = 0;
-- 
2.43.0


From 9a0c0ab23923f43a1a672ce77d8f704e330309d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 15/25] fix: end the interactive derivator with its input

It looped for ever at the end of input, and a formula without variables ended
the process.
---
 examples/diff_machine/main.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/examples/diff_machine/main.cpp b/examples/diff_machine/main.cpp
index 8a8ca44..632309f 100644
--- a/examples/diff_machine/main.cpp
+++ b/examples/diff_machine/main.cpp
@@ -24,7 +24,9 @@ int main() {
         // let user input an expression
         cout << ">>";
         std::string expr;
-        cin >> expr;
+        if (!(cin >> expr)) {
+            break; // end of input
+        }
 
         try {
             // parse to be expression tree
@@ -33,18 +35,19 @@ int main() {
             // analyze variables
             auto varnamesSet = node->GetAllVarNames();
             std::vector<std::string> varnames(varnamesSet.begin(), varnamesSet.end());
-            VarsTable varsTable(varnames, 0);
             std::string varname;
 
-            if (varsTable.Vars().size() == 1) {
+            if (varnames.size() == 1) {
                 // only one variable
-                varname = varsTable.Vars()[0];
-            } else if (varsTable.Vars().size() > 1) {
+                varname = varnames[0];
+            } else if (varnames.size() > 1) {
                 // multiple variables
                 cout << "more than 1 variable. who do you want to differentiate?" << endl;
                 cout << ">>";
-                cin >> varname;
-                if (!varsTable.Has(varname)) {
+                if (!(cin >> varname)) {
+                    break; // end of input
+                }
+                if (varnamesSet.count(varname) == 0) {
                     throw std::runtime_error("no variable \"" + varname + "\" in expression: " + expr);
                 }
             }
-- 
2.43.0


From c99db4329530eaece15b298e3f5c4d8fedb82488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:55 +0000
Subject: [PATCH 16/25] fix: replace the generated single-file sources all at
 once

The generators truncated the previous file before writing and formatting the
new one, so a failure in between left a half-written or unformatted file.
---
 scripts/combine_tests_to_single.py | 35 +++++++++---------
 scripts/util.py                    | 58 ++++++++++++++++++++----------
 2 files changed, 57 insertions(+), 36 deletions(-)

diff --git a/scripts/combine_tests_to_single.py b/scripts/combine_tests_to_single.py
index 7e6dc4f..345bdfd 100644
--- a/scripts/combine_tests_to_single.py
+++ b/scripts/combine_tests_to_single.py
@@ -123,28 +123,27 @@ if __name__ == "__main__":
     contents = tempContents
 
 
-    # 写入
-    with open(output_filename, "w", encoding="utf-8") as f:
-        # 填入预先准备好的头
-        with open(f"{root_dir}/scripts/all_tests_preheader.cpp", "r") as ff:
-            headerLines = ff.readlines()
+    with util.atomicOutput(output_filename) as temp_filename:
+        # 写入
+        with open(temp_filename, "w", encoding="utf-8") as f:
+            # 填入预先准备好的头
+            with open(f"{root_dir}/scripts/all_tests_preheader.cpp", "r") as ff:
+                headerLines = ff.readlines()
 
-        f.writelines(headerLines)
+            f.writelines(headerLines)
 
-        f.write("\n")
+            f.write("\n")
 
-        f.write("\n".join(contents))
-        f.write("\n")
+            f.write("\n".join(contents))
+            f.write("\n")
 
-        # 写入所有测试
-        for ele in elements:
-            print("writing content of ", ele.filename, "...")
-            f.write("\n".join(ele.contents))
-            f.write("\n\n")
+            # 写入所有测试
+            for ele in elements:
+                print("writing content of ", ele.filename, "...")
+                f.write("\n".join(ele.contents))
+                f.write("\n\n")
 
-    # 用clang-format处理
-    ret = os.system(f"clang-format -i {output_filename}")
-    if ret != 0:
-        raise RuntimeError("[ERR] fail to run clang-format")
+        # 用clang-format处理
+        util.runClangFormat(temp_filename)
 
     print("Done.")
diff --git a/scripts/util.py b/scripts/util.py
index 690d512..658a693 100644
--- a/scripts/util.py
+++ b/scripts/util.py
@@ -1,3 +1,4 @@
+import contextlib
 import os
 import re
 import typing
@@ -24,6 +25,28 @@ def findAllFile(base):
             yield fullname
 
 
+@contextlib.contextmanager
+def atomicOutput(output_filename):
+    """
+    先写入同目录下的临时文件，全部完成（含clang-format）后再一次性替换output_filename。
+    如果中途失败，output_filename保持原样。
+    """
+    base, ext = os.path.splitext(output_filename)
+    temp_filename = f"{base}.tmp{ext}"
+    try:
+        yield temp_filename
+        os.replace(temp_filename, output_filename)
+    finally:
+        if os.path.exists(temp_filename):
+            os.remove(temp_filename)
+
+
+def runClangFormat(filename):
+    ret = os.system(f"clang-format -i {filename}")
+    if ret != 0:
+        raise RuntimeError("[ERR] fail to run clang-format")
+
+
 class MyClass:
     """
     这个类用于分析.h或者.cpp文件，读入文件，获取它的include ""的内容和include <>的内容。
@@ -131,28 +154,27 @@ def combineClasses(elements: typing.List[MyClass], output_filename):
     allDefines.sort()
     allStdDeps.sort()
 
-    # 5. 写入
-    with open(output_filename, "w", encoding="utf-8 sig") as f:
-        f.write("#pragma once\n\n")
+    with atomicOutput(output_filename) as temp_filename:
+        # 5. 写入
+        with open(temp_filename, "w", encoding="utf-8 sig") as f:
+            f.write("#pragma once\n\n")
 
-        # define先于#include写入
-        for defs in allDefines:
-            f.write(f"{defs}\n")
+            # define先于#include写入
+            for defs in allDefines:
+                f.write(f"{defs}\n")
 
-        # 写入标准库头文件include
-        for header in allStdDeps:
-            f.write(f"#include <{header}>\n")
+            # 写入标准库头文件include
+            for header in allStdDeps:
+                f.write(f"#include <{header}>\n")
 
-        # 逐个把正文写入
-        for ele in sorted:
-            print("writing content of ", ele.filename, "...")
-            f.write("\n".join(ele.contents))
-            f.write("\n")
+            # 逐个把正文写入
+            for ele in sorted:
+                print("writing content of ", ele.filename, "...")
+                f.write("\n".join(ele.contents))
+                f.write("\n")
 
-    # 6. 用clang-format处理
-    ret = os.system(f"clang-format -i {output_filename}")
-    if ret != 0:
-        raise RuntimeError("[ERR] fail to run clang-format")
+        # 6. 用clang-format处理
+        runClangFormat(temp_filename)
 
     print("Done.")
 
-- 
2.43.0


From 88ade0f757f9d7d25e8af3c1cd2444c052a21fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:33 +0000
Subject: [PATCH 17/25] fix: give Armijo the gradient for rectangular systems
 in SolveByLM

Armijo multiplies df' by d. For under- and overdetermined systems J' * d has
mismatching sizes: an assertion failed, or memory outside the matrix was read.
---
 single/include/tomsolver/tomsolver.h | 4 +++-
 src/tomsolver/nonlinear.cpp          | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 1f1c10c..33501c7 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -3985,7 +3985,9 @@ inline VarsTable SolveByLM(const SymVec &equations, const VarsTable &varsTable)
                 },
                 [&](Vec v) -> Mat {
                     table.SetValues(v);
-                    return JaEqs.Clone().Subs(table).Calc().ToMat();
+                    Mat ja = JaEqs.Clone().Subs(table).Calc().ToMat();
+                    // Armijo里用的是df'*d，方程数与未知数个数不等时必须给出梯度(即J')，否则维数不匹配
+                    return ja.Rows() == ja.Cols() ? ja : ja.Transpose();
                 }); // 进行1维搜索得到alpha
 
             // double alpha = FindAlpha(q, d, std::bind(SixBarAngPosition, std::placeholders::_1, thetaCDKL, Hhit));
diff --git a/src/tomsolver/nonlinear.cpp b/src/tomsolver/nonlinear.cpp
index c3121de..bc74d1e 100644
--- a/src/tomsolver/nonlinear.cpp
+++ b/src/tomsolver/nonlinear.cpp
@@ -196,7 +196,9 @@ VarsTable SolveByLM(const SymVec &equations, const VarsTable &varsTable) {
                 },
                 [&](Vec v) -> Mat {
                     table.SetValues(v);
-                    return JaEqs.Clone().Subs(table).Calc().ToMat();
+                    Mat ja = JaEqs.Clone().Subs(table).Calc().ToMat();
+                    // Armijo里用的是df'*d，方程数与未知数个数不等时必须给出梯度(即J')，否则维数不匹配
+                    return ja.Rows() == ja.Cols() ? ja : ja.Transpose();
                 }); // 进行1维搜索得到alpha
 
             // double alpha = FindAlpha(q, d, std::bind(SixBarAngPosition, std::placeholders::_1, thetaCDKL, Hhit));
-- 
2.43.0


From 467e9d4a35e7a751e49563b7ce723342d0524cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:56 +0000
Subject: [PATCH 18/25] Revert "fix: end the interactive derivator with its
 input"

This reverts commit 9a0c0ab23923f43a1a672ce77d8f704e330309d0.
---
 examples/diff_machine/main.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/examples/diff_machine/main.cpp b/examples/diff_machine/main.cpp
index 632309f..8a8ca44 100644
--- a/examples/diff_machine/main.cpp
+++ b/examples/diff_machine/main.cpp
@@ -24,9 +24,7 @@ int main() {
         // let user input an expression
         cout << ">>";
         std::string expr;
-        if (!(cin >> expr)) {
-            break; // end of input
-        }
+        cin >> expr;
 
         try {
             // parse to be expression tree
@@ -35,19 +33,18 @@ int main() {
             // analyze variables
             auto varnamesSet = node->GetAllVarNames();
             std::vector<std::string> varnames(varnamesSet.begin(), varnamesSet.end());
+            VarsTable varsTable(varnames, 0);
             std::string varname;
 
-            if (varnames.size() == 1) {
+            if (varsTable.Vars().size() == 1) {
                 // only one variable
-                varname = varnames[0];
-            } else if (varnames.size() > 1) {
+                varname = varsTable.Vars()[0];
+            } else if (varsTable.Vars().size() > 1) {
                 // multiple variables
                 cout << "more than 1 variable. who do you want to differentiate?" << endl;
                 cout << ">>";
-                if (!(cin >> varname)) {
-                    break; // end of input
-                }
-                if (varnamesSet.count(varname) == 0) {
+                cin >> varname;
+                if (!varsTable.Has(varname)) {
                     throw std::runtime_error("no variable \"" + varname + "\" in expression: " + expr);
                 }
             }
-- 
2.43.0


From 3e0ef8bcaffc4193834dee8339d5474cde4b2ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:01 +0000
Subject: [PATCH 19/25] fix: report a source folder that cannot be listed when
 generating single files

---
 scripts/util.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scripts/util.py b/scripts/util.py
index 658a693..9c3232a 100644
--- a/scripts/util.py
+++ b/scripts/util.py
@@ -15,11 +15,15 @@ def getFullPath(basename: str, include_dirs) -> typing.Union[None, str]:
     return None
 
 
+def _raise(err):
+    raise err
+
+
 def findAllFile(base):
     """
-    通过迭代方式遍历文件夹下的文件名。
+    通过迭代方式遍历文件夹下的文件名。文件夹无法读取时抛出OSError。
     """
-    for root, ds, fs in os.walk(base):
+    for root, ds, fs in os.walk(base, onerror=_raise):
         for f in fs:
             fullname = os.path.join(root, f)
             yield fullname
-- 
2.43.0


From c5ccb0a55b97a074d93b061a4095245c53bce5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:33 +0000
Subject: [PATCH 20/25] fix: keep a matrix intact when a copy assignment runs
 out of memory

---
 single/include/tomsolver/tomsolver.h | 5 ++++-
 src/tomsolver/mat.h                  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 33501c7..384acd3 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -152,7 +152,10 @@ public:
 
     Mat(const Mat &) = default;
     Mat(Mat &&) = default;
-    Mat &operator=(const Mat &) = default;
+    // 先复制再移动：std::valarray的复制赋值在大小不同且内存不足时会留下已释放的指针
+    Mat &operator=(const Mat &b) {
+        return *this = Mat(b);
+    }
     Mat &operator=(Mat &&) = default;
 
     std::slice_array<double> Row(int i, int offset = 0);
diff --git a/src/tomsolver/mat.h b/src/tomsolver/mat.h
index 5a0e94a..a4ef786 100644
--- a/src/tomsolver/mat.h
+++ b/src/tomsolver/mat.h
@@ -41,7 +41,10 @@ public:
 
     Mat(const Mat &) = default;
     Mat(Mat &&) = default;
-    Mat &operator=(const Mat &) = default;
+    // 先复制再移动：std::valarray的复制赋值在大小不同且内存不足时会留下已释放的指针
+    Mat &operator=(const Mat &b) {
+        return *this = Mat(b);
+    }
     Mat &operator=(Mat &&) = default;
 
     std::slice_array<double> Row(int i, int offset = 0);
-- 
2.43.0


From 0102f9c67ee3af6eeae253b7a5844385687c04a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:47 +0000
Subject: [PATCH 21/25] fix: print numbers without objects that need
 initialising at start-up

ToString(double) kept its std::regex objects in static storage. A number
printed while the program starts (from the constructor of another static
object, depending on the link order) or ends (from a destructor) used an
expression that was not constructed yet or was destroyed already, and crashed.
---
 single/include/tomsolver/tomsolver.h | 34 +++++++++++++++----------
 src/tomsolver/config.cpp             | 37 +++++++++++++++++-----------
 2 files changed, 43 insertions(+), 28 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 384acd3..024a4b6 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -17,7 +17,6 @@
 #include <math.h>
 #include <memory>
 #include <queue>
-#include <regex>
 #include <set>
 #include <sstream>
 #include <stack>
@@ -506,10 +505,23 @@ inline void NormalizeDecimalPoint(char *buf) noexcept {
     std::memmove(point + 1, fraction, std::strlen(fraction) + 1);
 }
 
-static const std::tuple<const char *, std::regex> strategies[] = {
-    {"%.16e", std::regex{"\\.?0+(?=e)"}},
-    {"%.16f", std::regex{"\\.?0+(?=$)"}},
-};
+/**
+ * 去除buf内小数部分末尾（指数之前）多余的0。小数部分全为0的，小数点也一并去除。
+ */
+inline void RemoveTrailingZeros(char *buf) noexcept {
+    auto end = buf + std::strcspn(buf, "e");
+    auto last = end;
+    while (last != buf && last[-1] == '0') {
+        --last;
+    }
+    if (last == end) {
+        return;
+    }
+    if (last != buf && last[-1] == '.') {
+        --last;
+    }
+    std::memmove(last, end, std::strlen(end) + 1);
+}
 
 } // namespace
 
@@ -521,17 +533,13 @@ inline std::string ToString(double value) noexcept {
     char buf[64];
 
     // 绝对值过大 或者 绝对值过小，应该使用科学计数法来表示
-    auto getStrategyIdx = [absValue = std::abs(value)] {
-        return (absValue >= 1.0e16 || absValue <= 1.0e-16) ? 0 : 1;
-    };
-
-    auto &strategy = strategies[getStrategyIdx()];
-    auto fmt = std::get<0>(strategy);
-    auto &re = std::get<1>(strategy);
+    const auto absValue = std::abs(value);
+    auto fmt = (absValue >= 1.0e16 || absValue <= 1.0e-16) ? "%.16e" : "%.16f";
 
     snprintf(buf, sizeof(buf), fmt, value);
     NormalizeDecimalPoint(buf);
-    return std::regex_replace(buf, re, "");
+    RemoveTrailingZeros(buf);
+    return buf;
 }
 
 inline void Config::Reset() noexcept {
diff --git a/src/tomsolver/config.cpp b/src/tomsolver/config.cpp
index 89b467d..3a0dad5 100644
--- a/src/tomsolver/config.cpp
+++ b/src/tomsolver/config.cpp
@@ -1,10 +1,8 @@
 #include "config.h"
 
-#include <array>
+#include <cmath>
 #include <cstdio>
 #include <cstring>
-#include <regex>
-#include <tuple>
 
 namespace tomsolver {
 
@@ -34,10 +32,23 @@ void NormalizeDecimalPoint(char *buf) noexcept {
     std::memmove(point + 1, fraction, std::strlen(fraction) + 1);
 }
 
-static const std::tuple<const char *, std::regex> strategies[] = {
-    {"%.16e", std::regex{"\\.?0+(?=e)"}},
-    {"%.16f", std::regex{"\\.?0+(?=$)"}},
-};
+/**
+ * 去除buf内小数部分末尾（指数之前）多余的0。小数部分全为0的，小数点也一并去除。
+ */
+void RemoveTrailingZeros(char *buf) noexcept {
+    auto end = buf + std::strcspn(buf, "e");
+    auto last = end;
+    while (last != buf && last[-1] == '0') {
+        --last;
+    }
+    if (last == end) {
+        return;
+    }
+    if (last != buf && last[-1] == '.') {
+        --last;
+    }
+    std::memmove(last, end, std::strlen(end) + 1);
+}
 
 }
 
@@ -49,17 +60,13 @@ std::string ToString(double value) noexcept {
     char buf[64];
 
     // 绝对值过大 或者 绝对值过小，应该使用科学计数法来表示
-    auto getStrategyIdx = [absValue = std::abs(value)] {
-        return (absValue >= 1.0e16 || absValue <= 1.0e-16) ? 0 : 1;
-    };
-
-    auto &strategy = strategies[getStrategyIdx()];
-    auto fmt = std::get<0>(strategy);
-    auto &re = std::get<1>(strategy);
+    const auto absValue = std::abs(value);
+    auto fmt = (absValue >= 1.0e16 || absValue <= 1.0e-16) ? "%.16e" : "%.16f";
 
     snprintf(buf, sizeof(buf), fmt, value);
     NormalizeDecimalPoint(buf);
-    return std::regex_replace(buf, re, "");
+    RemoveTrailingZeros(buf);
+    return buf;
 }
 
 void Config::Reset() noexcept {
-- 
2.43.0


From d629a4439de9f472161733e7d72e44d58d089346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:21 +0000
Subject: [PATCH 22/25] fix: keep a variable table consistent when a copy
 assignment runs out of memory

The implicit copy assignment replaced the names, then the values, then the
mapping. When an allocation failed in between, the table was left with the
names of one table and the values or the mapping of another.
---
 single/include/tomsolver/tomsolver.h | 8 ++++++++
 src/tomsolver/vars_table.h           | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index 024a4b6..bdfef5d 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -582,6 +582,14 @@ public:
      */
     explicit VarsTable(const std::map<std::string, double> &table) noexcept;
 
+    VarsTable(const VarsTable &) = default;
+    VarsTable(VarsTable &&) = default;
+    // 先复制再移动：内存不足时，变量名、数值不会只被改写一部分
+    VarsTable &operator=(const VarsTable &rhs) {
+        return *this = VarsTable(rhs);
+    }
+    VarsTable &operator=(VarsTable &&) = default;
+
     /**
      * 变量数量。
      */
diff --git a/src/tomsolver/vars_table.h b/src/tomsolver/vars_table.h
index 613bbc1..908478e 100644
--- a/src/tomsolver/vars_table.h
+++ b/src/tomsolver/vars_table.h
@@ -35,6 +35,14 @@ public:
      */
     explicit VarsTable(const std::map<std::string, double> &table) noexcept;
 
+    VarsTable(const VarsTable &) = default;
+    VarsTable(VarsTable &&) = default;
+    // 先复制再移动：内存不足时，变量名、数值不会只被改写一部分
+    VarsTable &operator=(const VarsTable &rhs) {
+        return *this = VarsTable(rhs);
+    }
+    VarsTable &operator=(VarsTable &&) = default;
+
     /**
      * 变量数量。
      */
-- 
2.43.0


From 88cb2400402e75bf2d85cb837da116782589f8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:57 +0000
Subject: [PATCH 23/25] fix: generate the single header in a folder whose path
 a shell would take apart

---
 scripts/util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scripts/util.py b/scripts/util.py
index 9c3232a..6e8b203 100644
--- a/scripts/util.py
+++ b/scripts/util.py
@@ -1,6 +1,7 @@
 import contextlib
 import os
 import re
+import subprocess
 import typing
 
 
@@ -46,8 +47,9 @@ def atomicOutput(output_filename):
 
 
 def runClangFormat(filename):
-    ret = os.system(f"clang-format -i {filename}")
-    if ret != 0:
+    # 不经过shell，路径中可以有空格等特殊字符
+    ret = subprocess.run(["clang-format", "-i", filename])
+    if ret.returncode != 0:
         raise RuntimeError("[ERR] fail to run clang-format")
 
 
-- 
2.43.0


From 9745252ccf054c303b9067a153d2bc5bfd28dd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:57 +0000
Subject: [PATCH 24/25] fix: find tests by the end of their file name

The whole path was searched for "_test.cpp", so a working tree below a folder
whose name contains it could not be turned into the single-file test.
---
 scripts/combine_tests_to_single.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/combine_tests_to_single.py b/scripts/combine_tests_to_single.py
index 345bdfd..562bcca 100644
--- a/scripts/combine_tests_to_single.py
+++ b/scripts/combine_tests_to_single.py
@@ -78,7 +78,7 @@ if __name__ == "__main__":
 
     srcFilenames = []
     for path in util.findAllFile(f"{root_dir}/tests"):
-        if path.find("_test.cpp") != -1:
+        if path.endswith("_test.cpp"):
             srcFilenames.append(path)
     srcFilenames.sort()
 
-- 
2.43.0


From 04c6aa4f72b01dd0a6bfef93cdd0451afe2a74f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:05 +0000
Subject: [PATCH 25/25] fix: leave a matrix that was moved from without rows
 and columns

---
 single/include/tomsolver/tomsolver.h | 12 ++++++++++--
 src/tomsolver/mat.h                  | 13 +++++++++++--
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/single/include/tomsolver/tomsolver.h b/single/include/tomsolver/tomsolver.h
index bdfef5d..0f0c4e5 100644
--- a/single/include/tomsolver/tomsolver.h
+++ b/single/include/tomsolver/tomsolver.h
@@ -150,12 +150,20 @@ public:
     Mat(int row, int col, std::valarray<double> data) noexcept;
 
     Mat(const Mat &) = default;
-    Mat(Mat &&) = default;
+    // 被移动的对象没有数据，行数、列数也应为0
+    Mat(Mat &&b) noexcept : rows(std::exchange(b.rows, 0)), cols(std::exchange(b.cols, 0)), data(std::move(b.data)) {}
     // 先复制再移动：std::valarray的复制赋值在大小不同且内存不足时会留下已释放的指针
     Mat &operator=(const Mat &b) {
         return *this = Mat(b);
     }
-    Mat &operator=(Mat &&) = default;
+    Mat &operator=(Mat &&b) noexcept {
+        if (this != &b) {
+            rows = std::exchange(b.rows, 0);
+            cols = std::exchange(b.cols, 0);
+            data = std::move(b.data);
+        }
+        return *this;
+    }
 
     std::slice_array<double> Row(int i, int offset = 0);
     std::slice_array<double> Col(int j, int offset = 0);
diff --git a/src/tomsolver/mat.h b/src/tomsolver/mat.h
index a4ef786..d656ae8 100644
--- a/src/tomsolver/mat.h
+++ b/src/tomsolver/mat.h
@@ -40,12 +40,21 @@ public:
     Mat(int row, int col, std::valarray<double> data) noexcept;
 
     Mat(const Mat &) = default;
-    Mat(Mat &&) = default;
+    // 被移动的对象没有数据，行数、列数也应为0
+    Mat(Mat &&b) noexcept
+        : rows(std::exchange(b.rows, 0)), cols(std::exchange(b.cols, 0)), data(std::move(b.data)) {}
     // 先复制再移动：std::valarray的复制赋值在大小不同且内存不足时会留下已释放的指针
     Mat &operator=(const Mat &b) {
         return *this = Mat(b);
     }
-    Mat &operator=(Mat &&) = default;
+    Mat &operator=(Mat &&b) noexcept {
+        if (this != &b) {
+            rows = std::exchange(b.rows, 0);
+            cols = std::exchange(b.cols, 0);
+            data = std::move(b.data);
+        }
+        return *this;
+    }
 
     std::slice_array<double> Row(int i, int offset = 0);
     std::slice_array<double> Col(int j, int offset = 0);
-- 
2.43.0

