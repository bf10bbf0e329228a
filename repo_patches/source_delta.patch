From 893971bfb3f854e12b8a4ec2248a98e022c7bdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:33 +0000
Subject: [PATCH 01/24] fix: escape nested constraints in Constraint::toHTML

Only the operator of the outermost constraint was escaped, operands were
inserted via toString(), so nested '&', '<' and '>' leaked into the HTML
labels of the DOT output.
---
 include/vara/Feature/Constraint.h | 48 +++++--------------------------
 1 file changed, 7 insertions(+), 41 deletions(-)

diff --git a/include/vara/Feature/Constraint.h b/include/vara/Feature/Constraint.h
index 45062aa..b749d45 100644
--- a/include/vara/Feature/Constraint.h
+++ b/include/vara/Feature/Constraint.h
@@ -1,6 +1,7 @@
 #ifndef VARA_FEATURE_CONSTRAINT_H
 #define VARA_FEATURE_CONSTRAINT_H
 
+#include "llvm/ADT/StringExtras.h"
 #include "llvm/ADT/StringRef.h"
 #include "llvm/Support/FormatVariadic.h"
 
@@ -78,7 +79,12 @@ public:
 
   [[nodiscard]] virtual std::string toString() const = 0;
 
-  [[nodiscard]] virtual std::string toHTML() const { return toString(); }
+  [[nodiscard]] virtual std::string toHTML() const {
+    std::string HTML;
+    llvm::raw_string_ostream OS(HTML);
+    llvm::printHTMLEscaped(toString(), OS);
+    return OS.str();
+  }
 
   virtual bool accept(ConstraintVisitor &V) = 0;
 
@@ -175,11 +181,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} &amp; {1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_AND;
   }
@@ -246,11 +247,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} =&gt; {1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_IMPLIES;
   }
@@ -273,11 +269,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} =&gt; !{1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_EXCLUDES;
   }
@@ -301,11 +292,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} &lt;=&gt; {1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_EQUIVALENCE;
   }
@@ -418,11 +404,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} &lt; {1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_LESS;
   }
@@ -445,11 +426,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} &gt; {1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_GREATER;
   }
@@ -472,11 +448,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} &lt;= {1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_LESS_EQUAL;
   }
@@ -500,11 +471,6 @@ public:
                          RightOperand->toString());
   }
 
-  [[nodiscard]] std::string toHTML() const override {
-    return llvm::formatv("({0} &gt;= {1})", LeftOperand->toString(),
-                         RightOperand->toString());
-  }
-
   static bool classof(const Constraint *C) {
     return C->getKind() == ConstraintKind::CK_GREATER_EQUAL;
   }
-- 
2.43.0


From 2930c438743082731b2503979f8587f6df45ad57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:00 +0000
Subject: [PATCH 02/24] fix: let Configuration::begin() const start at the
 first option

It returned the end iterator, so every constant configuration looked empty.
---
 include/vara/Configuration/Configuration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vara/Configuration/Configuration.h b/include/vara/Configuration/Configuration.h
index f09d957..24ddcae 100644
--- a/include/vara/Configuration/Configuration.h
+++ b/include/vara/Configuration/Configuration.h
@@ -143,7 +143,7 @@ public:
   [[nodiscard]] llvm::StringMapConstIterator<
       std::unique_ptr<ConfigurationOption>>
   begin() const {
-    return OptionMappings.end();
+    return OptionMappings.begin();
   }
 
   [[nodiscard]] llvm::StringMapIterator<std::unique_ptr<ConfigurationOption>>
-- 
2.43.0


From 563cfe5bf900f316356a4b22f9c52997cb487ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:00 +0000
Subject: [PATCH 03/24] fix: convert "True" and "TRUE" to the boolean value
 true

Boolean literals are recognized case-insensitively, but every spelling of true
other than the lower case one became false.
---
 include/vara/Configuration/Configuration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/vara/Configuration/Configuration.h b/include/vara/Configuration/Configuration.h
index 24ddcae..0ec80ee 100644
--- a/include/vara/Configuration/Configuration.h
+++ b/include/vara/Configuration/Configuration.h
@@ -111,7 +111,7 @@ private:
   convert(llvm::StringRef ValueToConvert) {
     // Parse the value
     if (ValueToConvert.lower() == "true" || ValueToConvert.lower() == "false") {
-      return ValueToConvert == "true";
+      return ValueToConvert.lower() == "true";
     }
     int64_t IntegerValue;
     if (!ValueToConvert.getAsInteger(0, IntegerValue)) {
-- 
2.43.0


From 5fd47ff663901feb76425f95a62323bdec0c8d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:00 +0000
Subject: [PATCH 04/24] fix: tokenize empty expressions

Both lexers accessed the last token of an empty token list.
---
 include/vara/Feature/ConstraintParser.h   | 6 +++---
 include/vara/Feature/StepFunctionParser.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/vara/Feature/ConstraintParser.h b/include/vara/Feature/ConstraintParser.h
index 57f8aa9..68a83d0 100644
--- a/include/vara/Feature/ConstraintParser.h
+++ b/include/vara/Feature/ConstraintParser.h
@@ -129,9 +129,9 @@ public:
     }
 
     // ensure last token is always either EOF or an error
-    if (auto Kind = TokenList.back().getKind();
-        Kind != ConstraintToken::ConstraintTokenKind::END_OF_FILE &&
-        Kind != ConstraintToken::ConstraintTokenKind::ERROR) {
+    if (TokenList.empty() ||
+        (TokenList.back().getKind() != ConstraintToken::ConstraintTokenKind::END_OF_FILE &&
+         TokenList.back().getKind() != ConstraintToken::ConstraintTokenKind::ERROR)) {
       TokenList.push_back(
           ConstraintToken(ConstraintToken::ConstraintTokenKind::END_OF_FILE));
     }
diff --git a/include/vara/Feature/StepFunctionParser.h b/include/vara/Feature/StepFunctionParser.h
index faf7288..f907ddc 100644
--- a/include/vara/Feature/StepFunctionParser.h
+++ b/include/vara/Feature/StepFunctionParser.h
@@ -68,9 +68,9 @@ public:
     }
 
     // ensure last token is always either EOF or an error
-    if (auto Kind = TokenList.back().getKind();
-        Kind != StepFunctionToken::TokenKind::END_OF_FILE &&
-        Kind != StepFunctionToken::TokenKind::ERROR) {
+    if (TokenList.empty() ||
+        (TokenList.back().getKind() != StepFunctionToken::TokenKind::END_OF_FILE &&
+         TokenList.back().getKind() != StepFunctionToken::TokenKind::ERROR)) {
       TokenList.push_back(
           StepFunctionToken(StepFunctionToken::TokenKind::END_OF_FILE));
     }
-- 
2.43.0


From 90ef6d3c462daab7ff7d310144997e06fbdf8166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:00 +0000
Subject: [PATCH 05/24] fix: reject malformed numbers in step functions

Numbers such as '.' or '1.2.3' left the parsed value uninitialized.
---
 include/vara/Feature/StepFunctionParser.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/vara/Feature/StepFunctionParser.h b/include/vara/Feature/StepFunctionParser.h
index f907ddc..f4124a5 100644
--- a/include/vara/Feature/StepFunctionParser.h
+++ b/include/vara/Feature/StepFunctionParser.h
@@ -200,7 +200,11 @@ private:
       case StepFunctionToken::TokenKind::NUMBER:
         assert(peek().getValue().has_value());
         double Number;
-        llvm::StringRef(*next().getValue()).getAsDouble(Number);
+        if (auto Value = *next().getValue();
+            llvm::StringRef(Value).getAsDouble(Number)) {
+          llvm::errs() << "Syntax error: Invalid number '" << Value << "'\n";
+          return std::nullopt;
+        }
         return {Number};
       }
     }
-- 
2.43.0


From 7949ce09de56bb584044e6e59e4f34a240895a38 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:02:03 +0000
Subject: [PATCH 06/24] fix: removing a feature without parent, or with several
 empty groups

RemoveFeatureFromModel dereferenced the null parent of the root and left all
but one empty relationship of a removed leaf behind in the model.
---
 include/vara/Feature/FeatureModelTransaction.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index 1946bc1..0609d06 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -368,12 +368,15 @@ public:
       if (!F->getChildren<Feature>().empty()) {
         return NON_LEAF_NODE;
       }
-      if (!F->getChildren<Relationship>().empty()) {
-        removeRelationship(FM, *F->getChildren<Relationship>().begin());
+      for (auto *R : F->getChildren<Relationship>()) {
+        removeEdge(*F, *R);
+        removeRelationship(FM, R);
       }
     }
 
-    removeEdge(*F->getParent(), *F);
+    if (F->getParent()) {
+      removeEdge(*F->getParent(), *F);
+    }
     removeFeature(FM, *F);
     return Ok();
   }
-- 
2.43.0


From e111be452ce3170de58e3aff2b0d128b21fbc397 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:02:03 +0000
Subject: [PATCH 07/24] fix: AddRelationshipToModel on a missing parent or a
 grouped feature

The relationship was inserted before the parent was looked up and a missing
parent was dereferenced. Members of existing groups were linked to the new
group too while their old group kept its edges.
---
 include/vara/Feature/FeatureModelTransaction.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index 0609d06..6f76d3a 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -405,23 +405,27 @@ public:
   }
 
   Result<FTErrorCode, Relationship *> operator()(FeatureModel &FM) {
-    auto *InsertedRelationship =
-        addRelationship(FM, std::make_unique<Relationship>(Kind));
-    if (!InsertedRelationship) {
-      return ERROR;
-    }
-
     auto *P = std::visit(
         Overloaded{
             [&FM](const std::string &Name) { return FM.getFeature(Name); },
             [](Feature *Ptr) { return Ptr; },
         },
         Parent);
+    if (!P) {
+      return MISSING_PARENT;
+    }
+
+    auto *InsertedRelationship =
+        addRelationship(FM, std::make_unique<Relationship>(Kind));
+    if (!InsertedRelationship) {
+      return ERROR;
+    }
 
     setParent(*InsertedRelationship, *P);
     addEdge(*P, *InsertedRelationship);
 
-    for (auto *C : P->getChildren<Feature>()) {
+    // only direct children, members of other groups remain in their group
+    for (auto *C : P->getChildren<Feature>(1)) {
       assert(P->hasEdgeTo(*C) && C->hasEdgeFrom(*P));
       removeEdge(*P, *C);
       addEdge(*InsertedRelationship, *C);
-- 
2.43.0


From e3610846d8c26389098b5b713c76b83971a80f58 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:02:03 +0000
Subject: [PATCH 08/24] fix: RemoveRelationshipFromModel dereferenced begin()
 of an empty set

---
 include/vara/Feature/FeatureModelTransaction.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index 6f76d3a..a323fd4 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -470,7 +470,10 @@ public:
       return MISSING_PARENT;
     }
 
-    auto Relationships = P->getChildren<Relationship>();
+    auto Relationships = P->getChildren<Relationship>(1);
+    if (Relationships.empty()) {
+      return MISSING_CHILD;
+    }
     Relationship *R = *Relationships.begin();
 
     removeEdge(*P, *R);
-- 
2.43.0


From d491a27d4ca34604b93ae395a8d6841bb33d685c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:02:03 +0000
Subject: [PATCH 09/24] fix: location modifications of missing features and
 absent locations

A missing feature was dereferenced, removing an absent location erased end().
---
 include/vara/Feature/Feature.h                |  3 +-
 .../vara/Feature/FeatureModelTransaction.h    | 36 ++++++++++---------
 2 files changed, 22 insertions(+), 17 deletions(-)

diff --git a/include/vara/Feature/Feature.h b/include/vara/Feature/Feature.h
index d44e9ec..484d5e4 100644
--- a/include/vara/Feature/Feature.h
+++ b/include/vara/Feature/Feature.h
@@ -99,7 +99,8 @@ public:
 
   std::vector<FeatureSourceRange>::iterator
   removeLocation(const FeatureSourceRange &Fsr) {
-    return Locations.erase(std::find(Locations.begin(), Locations.end(), Fsr));
+    auto Loc = std::find(Locations.begin(), Locations.end(), Fsr);
+    return Loc != Locations.end() ? Locations.erase(Loc) : Loc;
   }
 
   bool updateLocation(const FeatureSourceRange &OldFsr,
diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index a323fd4..79d6711 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -511,14 +511,16 @@ public:
   }
 
   Result<FTErrorCode> operator()(FeatureModel &FM) {
-    addLocation(*std::visit(Overloaded{
-                                [&FM](const std::string &Name) {
-                                  return FM.getFeature(Name);
-                                },
-                                [](Feature *Ptr) { return Ptr; },
-                            },
-                            F),
-                FSR);
+    auto *Target = std::visit(
+        Overloaded{
+            [&FM](const std::string &Name) { return FM.getFeature(Name); },
+            [](Feature *Ptr) { return Ptr; },
+        },
+        F);
+    if (!Target) {
+      return MISSING_FEATURE;
+    }
+    addLocation(*Target, FSR);
     return Ok();
   }
 
@@ -546,14 +548,16 @@ public:
   }
 
   Result<FTErrorCode> operator()(FeatureModel &FM) {
-    removeLocation(*std::visit(Overloaded{
-                                   [&FM](const std::string &Name) {
-                                     return FM.getFeature(Name);
-                                   },
-                                   [](Feature *Ptr) { return Ptr; },
-                               },
-                               F),
-                   FSR);
+    auto *Target = std::visit(
+        Overloaded{
+            [&FM](const std::string &Name) { return FM.getFeature(Name); },
+            [](Feature *Ptr) { return Ptr; },
+        },
+        F);
+    if (!Target) {
+      return MISSING_FEATURE;
+    }
+    removeLocation(*Target, FSR);
     return Ok();
   }
 
-- 
2.43.0


From e360a697c98af45a831d0bb3e88fc02dcea53099 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:02:03 +0000
Subject: [PATCH 10/24] fix: AddChild created cycles below a descendant of the
 child

---
 include/vara/Feature/FeatureModelTransaction.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index 79d6711..a196c8f 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -797,8 +797,11 @@ public:
       return MISSING_PARENT;
     }
 
-    if (C == P) {
-      return RECURSIVE_EDGE;
+    // a node must not become an ancestor of itself
+    for (auto *N = P; N; N = N->getParent()) {
+      if (N == C) {
+        return RECURSIVE_EDGE;
+      }
     }
 
     if (C->getParent()) {
-- 
2.43.0


From d1d6a33032d8fa6c3341359d77e3484b7e453e15 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:02:03 +0000
Subject: [PATCH 11/24] fix: copy transactions dereferenced null for unknown
 feature names

---
 .../vara/Feature/FeatureModelTransaction.h    | 55 ++++++-------------
 1 file changed, 17 insertions(+), 38 deletions(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index a196c8f..86ba459 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -866,14 +866,7 @@ protected:
     assert(FM && "FeatureModel is null.");
 
     FeatureModelModification::makeModification<RemoveFeatureFromModel>(
-        translateFeature(*std::visit(Overloaded{
-                                         [this](const std::string &Name) {
-                                           return FM->getFeature(Name);
-                                         },
-                                         [](Feature *Ptr) { return Ptr; },
-                                     },
-                                     F)),
-        Recursive)(*FM);
+        translateFeature(F), Recursive)(*FM);
   }
 
   Result<FTErrorCode, Relationship *>
@@ -884,54 +877,28 @@ protected:
     }
 
     return FeatureModelModification::makeModification<AddRelationshipToModel>(
-        Kind, translateFeature(*std::visit(Overloaded{
-                                               [this](const std::string &Name) {
-                                                 return FM->getFeature(Name);
-                                               },
-                                               [](Feature *Ptr) { return Ptr; },
-                                           },
-                                           Parent)))(*FM);
+        Kind, translateFeature(Parent))(*FM);
   }
 
   void removeRelationshipImpl(const FeatureVariantTy &F) {
     assert(FM && "Feature model is null.");
 
     FeatureModelModification::makeModification<RemoveRelationshipFromModel>(
-        translateFeature(*std::visit(Overloaded{
-                                         [this](const std::string &Name) {
-                                           return FM->getFeature(Name);
-                                         },
-                                         [](Feature *Ptr) { return Ptr; },
-                                     },
-                                     F)))(*FM);
+        translateFeature(F))(*FM);
   }
 
   void addLocationImpl(const FeatureVariantTy &F, FeatureSourceRange FSR) {
     assert(FM && "FeatureModel is null.");
 
     FeatureModelModification::makeModification<AddLocationToFeature>(
-        translateFeature(*std::visit(Overloaded{
-                                         [this](const std::string &Name) {
-                                           return FM->getFeature(Name);
-                                         },
-                                         [](Feature *Ptr) { return Ptr; },
-                                     },
-                                     F)),
-        std::move(FSR))(*FM);
+        translateFeature(F), std::move(FSR))(*FM);
   }
 
   void removeLocationImpl(const FeatureVariantTy &F, FeatureSourceRange &FSR) {
     assert(FM && "FeatureModel is null.");
 
     FeatureModelModification::makeModification<RemoveLocationFromFeature>(
-        translateFeature(*std::visit(Overloaded{
-                                         [this](const std::string &Name) {
-                                           return FM->getFeature(Name);
-                                         },
-                                         [](Feature *Ptr) { return Ptr; },
-                                     },
-                                     F)),
-        FSR)(*FM);
+        translateFeature(F), FSR)(*FM);
   }
 
   template <class ConstraintTy>
@@ -985,6 +952,18 @@ private:
     return FM->getFeature(F.getName());
   }
 
+  /// Nullptr if the copied FeatureModel has no such Feature.
+  [[nodiscard]] Feature *translateFeature(const FeatureVariantTy &F) {
+    return std::visit(
+        Overloaded{
+            [this](const std::string &Name) { return FM->getFeature(Name); },
+            [this](Feature *Ptr) {
+              return Ptr ? translateFeature(*Ptr) : nullptr;
+            },
+        },
+        F);
+  }
+
   std::unique_ptr<FeatureModel> FM;
 };
 
-- 
2.43.0


From 4aaa1a7ed2502c46f8bc43c972b4097d78033ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:02:03 +0000
Subject: [PATCH 12/24] fix: addChild was a no-op on copy transactions

---
 .../vara/Feature/FeatureModelTransaction.h    | 34 +++++++++++++++++--
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/include/vara/Feature/FeatureModelTransaction.h b/include/vara/Feature/FeatureModelTransaction.h
index 86ba459..a77563b 100644
--- a/include/vara/Feature/FeatureModelTransaction.h
+++ b/include/vara/Feature/FeatureModelTransaction.h
@@ -941,9 +941,12 @@ protected:
         *FM);
   }
 
-  static void addChildImpl(const FeatureTreeNodeVariantTy &Parent,
-                           const FeatureTreeNodeVariantTy &Child) {
-    FeatureModelModification::makeModification<AddChild>(Parent, Child);
+  void addChildImpl(const FeatureTreeNodeVariantTy &Parent,
+                    const FeatureTreeNodeVariantTy &Child) {
+    assert(FM && "FeatureModel is null.");
+
+    FeatureModelModification::makeModification<AddChild>(
+        translateNode(Parent), translateNode(Child))(*FM);
   }
 
 private:
@@ -964,6 +967,31 @@ private:
         F);
   }
 
+  /// Nullptr if the copied FeatureModel has no such node.
+  [[nodiscard]] FeatureTreeNode *
+  translateNode(const FeatureTreeNodeVariantTy &Node) {
+    if (const auto *Name = std::get_if<std::string>(&Node)) {
+      return FM->getFeature(*Name);
+    }
+    auto *N = std::get<FeatureTreeNode *>(Node);
+    if (auto *F = llvm::dyn_cast_or_null<Feature>(N)) {
+      return translateFeature(*F);
+    }
+    // A Relationship corresponds to the one of the translated parent feature.
+    auto *P = N ? llvm::dyn_cast_or_null<Feature>(N->getParent()) : nullptr;
+    P = P ? translateFeature(*P) : nullptr;
+    if (!P || P->hasEdgeTo(*N)) {
+      return P ? N : nullptr;
+    }
+    auto Kind = llvm::cast<Relationship>(N)->getKind();
+    for (auto *R : P->getChildren<Relationship>(1)) {
+      if (R->getKind() == Kind) {
+        return R;
+      }
+    }
+    return nullptr;
+  }
+
   std::unique_ptr<FeatureModel> FM;
 };
 
-- 
2.43.0


From f11eda14a413a2cd29124806b884438fce9cb178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:50 +0000
Subject: [PATCH 13/24] fix: numbers in constraints swallowed following
 operators

---
 include/vara/Feature/ConstraintParser.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/vara/Feature/ConstraintParser.h b/include/vara/Feature/ConstraintParser.h
index 68a83d0..d702dbe 100644
--- a/include/vara/Feature/ConstraintParser.h
+++ b/include/vara/Feature/ConstraintParser.h
@@ -244,9 +244,16 @@ private:
   }
 
   static ResultTy munchNumber(const llvm::StringRef &Str) {
-    auto Munch = Str.take_while([](auto C) {
-      return llvm::isDigit(C) || C == 'e' || C == 'E' || C == '+' || C == '-';
-    });
+    // a sign only belongs to the number if it starts the exponent
+    auto IsExponent = [](auto C) { return C == 'e' || C == 'E'; };
+    size_t Size = 0;
+    while (Size < Str.size() &&
+           (llvm::isDigit(Str[Size]) || IsExponent(Str[Size]) ||
+            (Size > 0 && IsExponent(Str[Size - 1]) &&
+             (Str[Size] == '+' || Str[Size] == '-')))) {
+      ++Size;
+    }
+    auto Munch = Str.take_front(Size);
 
     return {ConstraintToken(ConstraintToken::ConstraintTokenKind::NUMBER,
                             Munch.lower()),
-- 
2.43.0


From 2a613bc1ab699fce74cd0f8f3e392d279b1c40ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:18 +0000
Subject: [PATCH 14/24] fix: solver translated exclusive or as not both

---
 lib/Solver/Z3Solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index 1df128a..520924b 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -322,7 +322,7 @@ bool Z3SolverConstraintVisitor::visit(vara::feature::BinaryConstraint *C) {
     break;
   case feature::Constraint::ConstraintKind::CK_XOR:
     Z3ConstraintExpression = z3::implies(Left, !Z3ConstraintExpression) &&
-                             z3::implies(Z3ConstraintExpression, !Left);
+                             z3::implies(!Left, Z3ConstraintExpression);
     break;
   default:
     llvm_unreachable(
-- 
2.43.0


From 92d7baf8ef0989b39fff6c5ea3508a217a92c95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:40 +0000
Subject: [PATCH 15/24] fix: numeric ranges without ascending step function
 crashed or never ended

A range without step function dereferenced null, and a step function that does
not ascend (x * 2 from 0, x + 0) kept the solver adding values forever.
---
 lib/Solver/Z3Solver.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index 520924b..ba18391 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -46,7 +46,12 @@ Z3Solver::addFeature(const feature::Feature &FeatureToAdd,
       std::vector<int64_t> Vals;
       while (Step <= Range.second) {
         Vals.insert(Vals.begin(), Step);
-        Step = StepFunction->next(Step);
+        // without step function, every integer of the range is a value
+        const auto Next = StepFunction ? StepFunction->next(Step) : Step + 1;
+        if (Next <= Step) {
+          break; // the steps do not ascend any further
+        }
+        Step = Next;
       }
       if (auto R = addFeature(F->getName().str(), Vals); !R) {
         return R;
-- 
2.43.0


From b0def26418c4a6af335b56e32894449089be0655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:43 +0000
Subject: [PATCH 16/24] fix: negative numbers were enumerated as texts like (-
 1)

The solver's configurations printed the Z3 term, which is no integer for values
below zero, so the option was read back as a string.
---
 lib/Solver/Z3Solver.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/Solver/Z3Solver.cpp b/lib/Solver/Z3Solver.cpp
index ba18391..d4b0018 100644
--- a/lib/Solver/Z3Solver.cpp
+++ b/lib/Solver/Z3Solver.cpp
@@ -246,8 +246,11 @@ Z3Solver::getCurrentConfiguration() {
   for (const auto &Entry : OptionToVariableMapping) {
     const z3::expr OptionExpr = *Entry.getValue();
     const z3::expr Value = CurrentModel->eval(OptionExpr, true);
-    Config->setConfigurationOption(Entry.getKey(),
-                                   llvm::StringRef(Value.to_string()));
+    string Text;
+    if (!Value.is_numeral(Text)) { // to_string() prints -1 as (- 1)
+      Text = Value.to_string();
+    }
+    Config->setConfigurationOption(Entry.getKey(), llvm::StringRef(Text));
   }
   return Config;
 }
-- 
2.43.0


From 9929a64bf131499b6cf43d02b96eacf0ecd2f94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:49 +0000
Subject: [PATCH 17/24] fix: isValid held for models without any valid
 configuration

It returned whether the solver answered instead of what it answered.
---
 include/vara/Solver/ConfigurationFactory.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/vara/Solver/ConfigurationFactory.h b/include/vara/Solver/ConfigurationFactory.h
index a4b4d2f..6cdad07 100644
--- a/include/vara/Solver/ConfigurationFactory.h
+++ b/include/vara/Solver/ConfigurationFactory.h
@@ -160,7 +160,8 @@ public:
   static bool isValid(feature::FeatureModel &Model,
                       const vara::solver::SolverType Type = SolverType::Z3) {
     auto S = SolverFactory::initializeSolver(Model, Type);
-    return S->hasValidConfigurations();
+    auto R = S->hasValidConfigurations();
+    return R && R.extractValue();
   }
 };
 
-- 
2.43.0


From 7f865a31401326cab226cd11160e9877d92bf324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:22 +0000
Subject: [PATCH 18/24] fix: write 64-bit values of numeric features to XML
 without truncation

---
 lib/Feature/FeatureModelWriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index e75d9d8..4149963 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -431,7 +431,7 @@ int FeatureModelXmlWriter::writeFeature(xmlTextWriterPtr Writer,
     } else {
       auto Values = std::get<NumericFeature::ValueListType>(ValueVariant);
       std::string Str;
-      std::for_each(std::begin(Values), std::end(Values) - 1, [&Str](int X) {
+      std::for_each(std::begin(Values), std::end(Values) - 1, [&Str](int64_t X) {
         Str.append(std::to_string(X));
         Str.push_back(';');
       });
-- 
2.43.0


From c68f8866acb7f7bfd873b04fdfbed596e95a0725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:22 +0000
Subject: [PATCH 19/24] fix: write the output string of a feature to XML

---
 lib/Feature/FeatureModelWriter.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index 4149963..6b1831c 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -310,6 +310,14 @@ int FeatureModelXmlWriter::writeFeature(xmlTextWriterPtr Writer,
                                  charToUChar(Feature1.getName().data()));
   CHECK_RC
 
+  // output string
+  if (!Feature1.getOutputString().empty()) {
+    RC = xmlTextWriterWriteElement(
+        Writer, XmlConstants::OUTPUTSTRING,
+        charToUChar(Feature1.getOutputString().data()));
+    CHECK_RC
+  }
+
   // parent
   if (Feature1.getParentFeature()) {
     RC = xmlTextWriterWriteElement(
-- 
2.43.0


From 07cfcbeb9e4be306911579d362b73106caaeaa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:22 +0000
Subject: [PATCH 20/24] fix: write the revision range of a source range to XML

---
 lib/Feature/FeatureModelWriter.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index 6b1831c..fca1248 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -486,6 +486,23 @@ int FeatureModelXmlWriter::writeSourceRange(xmlTextWriterPtr Writer,
   }
   CHECK_RC
 
+  if (auto *Revisions = Location.revisionRange()) {
+    RC = xmlTextWriterStartElement(Writer, XmlConstants::REVISIONRANGE);
+    CHECK_RC
+    RC = xmlTextWriterWriteElement(
+        Writer, XmlConstants::INTRODUCED,
+        charToUChar(Revisions->introducingCommit().data()));
+    CHECK_RC
+    if (Revisions->hasRemovingCommit()) {
+      RC = xmlTextWriterWriteElement(
+          Writer, XmlConstants::REMOVED,
+          charToUChar(Revisions->removingCommit().data()));
+      CHECK_RC
+    }
+    RC = xmlTextWriterEndElement(Writer); // REVISIONRANGE
+    CHECK_RC
+  }
+
   RC = xmlTextWriterWriteElement(
       Writer, XmlConstants::PATH,
       charToUChar(Location.getPath().string().data()));
-- 
2.43.0


From 375a81de5e5cbd07d1ac6988ba45bfdf437cbe6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:22 +0000
Subject: [PATCH 21/24] fix: write the member offset of a source range to XML

---
 lib/Feature/FeatureModelWriter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/Feature/FeatureModelWriter.cpp b/lib/Feature/FeatureModelWriter.cpp
index fca1248..0fd37fe 100644
--- a/lib/Feature/FeatureModelWriter.cpp
+++ b/lib/Feature/FeatureModelWriter.cpp
@@ -542,6 +542,12 @@ int FeatureModelXmlWriter::writeSourceRange(xmlTextWriterPtr Writer,
   RC = xmlTextWriterEndElement(Writer); // END
   CHECK_RC
 
+  if (auto *MemberOffset = Location.getMemberOffset()) {
+    RC = xmlTextWriterWriteElement(Writer, XmlConstants::MEMBEROFFSET,
+                                   charToUChar(MemberOffset->toString().data()));
+    CHECK_RC
+  }
+
   RC = xmlTextWriterEndElement(Writer); // SOURCERANGE
   return RC;
 }
-- 
2.43.0


From 6af2b389428e3c592133acf8e36c5e86e7a017dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:17 +0000
Subject: [PATCH 22/24] fix: read mixed constraints without req or exprKind
 attribute instead of crashing

---
 lib/Feature/FeatureModelParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 1ea029c..84cefa0 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -253,10 +253,10 @@ FeatureModelXmlParser::parseConstraints<FeatureModel::MixedConstraint>(
 
           FMB.addConstraint(std::make_unique<FeatureModel::MixedConstraint>(
               std::move(Constraint),
-              std::string(reinterpret_cast<char *>(R.get())) == "none"
+              !xmlStrcmp(R.get(), BAD_CAST "none")
                   ? FeatureModel::MixedConstraint::Req::NONE
                   : FeatureModel::MixedConstraint::Req::ALL,
-              std::string(reinterpret_cast<char *>(E.get())) == "neg"
+              !xmlStrcmp(E.get(), BAD_CAST "neg")
                   ? FeatureModel::MixedConstraint::ExprKind::NEG
                   : FeatureModel::MixedConstraint::ExprKind::POS));
         } else {
-- 
2.43.0


From 1677f8a1b7cfa12c0b7ccf12cdbc641b247934b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:39 +0000
Subject: [PATCH 23/24] fix: trim the names of children when reading XML, like
 every other name

---
 lib/Feature/FeatureModelParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index 84cefa0..ffe7772 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -65,7 +65,7 @@ FeatureModelXmlParser::parseConfigurationOption(xmlNode *Node,
         for (xmlNode *Child = Head->children; Child; Child = Child->next) {
           if (Child->type == XML_ELEMENT_NODE) {
             if (!xmlStrcmp(Child->name, XmlConstants::OPTIONS)) {
-              auto FeatureName = std::string(reinterpret_cast<char *>(
+              auto FeatureName = trim(reinterpret_cast<char *>(
                   std::unique_ptr<xmlChar, void (*)(void *)>(
                       xmlNodeGetContent(Child), xmlFree)
                       .get()));
-- 
2.43.0


From 9d43523529d0f256646341b12dec93a6a9541ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:43 +0000
Subject: [PATCH 24/24] fix: reject XML documents that do not conform to the
 DTD

---
 lib/Feature/FeatureModelParser.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/Feature/FeatureModelParser.cpp b/lib/Feature/FeatureModelParser.cpp
index ffe7772..f69dd55 100644
--- a/lib/Feature/FeatureModelParser.cpp
+++ b/lib/Feature/FeatureModelParser.cpp
@@ -428,8 +428,7 @@ FeatureModelParser::UniqueXmlDoc FeatureModelXmlParser::parseDoc() {
       xmlFreeDoc);
   xmlCleanupParser();
   if (Doc && Ctxt->valid) {
-    xmlValidateDtd(&Ctxt->vctxt, Doc.get(), createDtd().get());
-    if (Ctxt->vctxt.valid) {
+    if (xmlValidateDtd(&Ctxt->vctxt, Doc.get(), createDtd().get())) {
       return Doc;
     }
     llvm::errs() << "Failed to validate DTD.\n";
-- 
2.43.0

