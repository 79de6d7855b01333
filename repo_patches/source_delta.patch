From cb760a1e378232c2d359076125c3f65c16425b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:30 +0000
Subject: [PATCH 01/27] fix: != on floats is true for NaN operands (unordered
 compare)

---
 Sources/Spp/LlvmCodeGen/TargetGenerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sources/Spp/LlvmCodeGen/TargetGenerator.cpp b/Sources/Spp/LlvmCodeGen/TargetGenerator.cpp
index f6962c1..4f7c040 100644
--- a/Sources/Spp/LlvmCodeGen/TargetGenerator.cpp
+++ b/Sources/Spp/LlvmCodeGen/TargetGenerator.cpp
@@ -1980,7 +1980,7 @@ Bool TargetGenerator::generateNotEqual(
     result = newSrdObj<Value>(llvmResult, false);
     return true;
   } else if (tgType->isDerivedFrom<FloatType>()) {
-    auto llvmResult = block->getIrBuilder()->CreateFCmpONE(srcValBox1->getLlvmValue(), srcValBox2->getLlvmValue());
+    auto llvmResult = block->getIrBuilder()->CreateFCmpUNE(srcValBox1->getLlvmValue(), srcValBox2->getLlvmValue());
     result = newSrdObj<Value>(llvmResult, false);
     return true;
   } else {
-- 
2.43.0


From c3184c4d34b77523f6a279852b8ff6942e10dceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:30 +0000
Subject: [PATCH 02/27] fix: negation has the same type whether or not code is
 generated

---
 Sources/Spp/CodeGen/ExpressionGenerator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sources/Spp/CodeGen/ExpressionGenerator.cpp b/Sources/Spp/CodeGen/ExpressionGenerator.cpp
index eaca817..16768df 100644
--- a/Sources/Spp/CodeGen/ExpressionGenerator.cpp
+++ b/Sources/Spp/CodeGen/ExpressionGenerator.cpp
@@ -1388,7 +1388,7 @@ Bool ExpressionGenerator::_generateUnaryValOp(
   }
 
   TiObject *tgTargetType;
-  if (!g->getGeneratedType(param.astType, session, tgTargetType, 0)) {
+  if (!g->getGeneratedType(astTargetType, session, tgTargetType, 0)) {
     throw EXCEPTION(GenericException, S("Unexpected error while generating arithmetic op result target type."));
   }
 
@@ -1398,7 +1398,7 @@ Bool ExpressionGenerator::_generateUnaryValOp(
         session->getTgContext(), tgTargetType, param.targetData.get(), result.targetData
       )) return false;
     }
-    result.astType = param.astType;
+    result.astType = astTargetType;
     return true;
   } else {
     throw EXCEPTION(InvalidArgumentException, S("astNode"), S("Does not represent an arithmetic operator."));
-- 
2.43.0


From 57cb970b86eb00b8581f3b19cf72785e845e2b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:53 +0000
Subject: [PATCH 03/27] fix: break and continue leave every scope they cross,
 and are rejected outside of loops

---
 Sources/Spp/CodeGen/CommandGenerator.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/Sources/Spp/CodeGen/CommandGenerator.cpp b/Sources/Spp/CodeGen/CommandGenerator.cpp
index 3bb72d3..4176707 100644
--- a/Sources/Spp/CodeGen/CommandGenerator.cpp
+++ b/Sources/Spp/CodeGen/CommandGenerator.cpp
@@ -300,7 +300,9 @@ Bool CommandGenerator::_generateContinueStatement(
         newSrdObj<Spp::Notices::InvalidContinueStepsNotice>(astNode->findSourceLocation())
       );
       return false;
-    } else if (loopNode->isDerivedFrom<Core::Data::Ast::Scope>()) {
+    }
+
+    if (loopNode->isDerivedFrom<Core::Data::Ast::Scope>()) {
       ++scopeCount;
     } else {
       // if it's a non-scope body of a control statement we still want to treat it as if it's a scope.
@@ -313,6 +315,12 @@ Bool CommandGenerator::_generateContinueStatement(
       }
     }
     loopNode = loopNode->getOwner();
+    if (loopNode == 0) {
+      cmdGenerator->astHelper->getNoticeStore()->add(
+        newSrdObj<Spp::Notices::InvalidContinueStepsNotice>(astNode->findSourceLocation())
+      );
+      return false;
+    }
   }
 
   if (!g->generateVarGroupDestruction(session, session->getDestructionStack()->getScopeStartIndex(-scopeCount))) return false;
@@ -348,7 +356,9 @@ Bool CommandGenerator::_generateBreakStatement(
         newSrdObj<Spp::Notices::InvalidBreakStepsNotice>(astNode->findSourceLocation())
       );
       return false;
-    } else if (loopNode->isDerivedFrom<Core::Data::Ast::Scope>()) {
+    }
+
+    if (loopNode->isDerivedFrom<Core::Data::Ast::Scope>()) {
       ++scopeCount;
     } else {
       // if it's a non-scope body of a control statement we still want to treat it as if it's a scope.
@@ -361,6 +371,12 @@ Bool CommandGenerator::_generateBreakStatement(
       }
     }
     loopNode = loopNode->getOwner();
+    if (loopNode == 0) {
+      cmdGenerator->astHelper->getNoticeStore()->add(
+        newSrdObj<Spp::Notices::InvalidBreakStepsNotice>(astNode->findSourceLocation())
+      );
+      return false;
+    }
   }
 
   if (!g->generateVarGroupDestruction(session, session->getDestructionStack()->getScopeStartIndex(-scopeCount))) {
-- 
2.43.0


From fb83274b1c9e220975ff2abbc67f48aad166b0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:52 +0000
Subject: [PATCH 04/27] fix: numbers in the source that are out of range no
 longer end the compiler with an exception

---
 Sources/Core/Basic/basic.h                  | 12 ++++++++++++
 Sources/Spp/Ast/ArrayType.cpp               |  2 +-
 Sources/Spp/Ast/FloatType.cpp               |  2 +-
 Sources/Spp/Ast/IntegerType.cpp             |  2 +-
 Sources/Spp/Ast/Template.cpp                |  2 +-
 Sources/Spp/CodeGen/CommandGenerator.cpp    |  4 ++--
 Sources/Spp/CodeGen/ExpressionGenerator.cpp | 14 +++++++-------
 Sources/Spp/Grammar/tools.cpp               | 10 ++++++----
 Sources/Spp/Handlers/handlers.cpp           |  2 +-
 9 files changed, 32 insertions(+), 18 deletions(-)

diff --git a/Sources/Core/Basic/basic.h b/Sources/Core/Basic/basic.h
index b5aedea..e833ce5 100644
--- a/Sources/Core/Basic/basic.h
+++ b/Sources/Core/Basic/basic.h
@@ -461,6 +461,18 @@ Int compareStr(WChar const *str1, WChar const *str2, Int size);
  */
 Bool compareStrSuffix(Char const *str, Char const *suffix);
 
+/**
+ * @brief Parse the integer at the beginning of a string.
+ * @ingroup basic_functions
+ *
+ * Numbers bigger than the given maximum are clamped to that maximum.
+ */
+inline LongInt strToInt(Char const *str, LongInt max)
+{
+  LongInt value = strtol(str, 0, 10);
+  return value > max ? max : value;
+}
+
 /**
  * @brief Wrapper for string copy function.
  * @ingroup basic_functions
diff --git a/Sources/Spp/Ast/ArrayType.cpp b/Sources/Spp/Ast/ArrayType.cpp
index 67c74f9..ad3dfcb 100644
--- a/Sources/Spp/Ast/ArrayType.cpp
+++ b/Sources/Spp/Ast/ArrayType.cpp
@@ -48,7 +48,7 @@ Word ArrayType::getSize(Helper *helper) const
   if (size == 0) {
     throw EXCEPTION(GenericException, S("Could not find size value."));
   }
-  return std::stol(size->getValue().get());
+  return (Word)strToInt(size->getValue().get(), UINT_MAX);
 }
 
 
diff --git a/Sources/Spp/Ast/FloatType.cpp b/Sources/Spp/Ast/FloatType.cpp
index fdac55c..fe97f4b 100644
--- a/Sources/Spp/Ast/FloatType.cpp
+++ b/Sources/Spp/Ast/FloatType.cpp
@@ -30,7 +30,7 @@ Word FloatType::getBitCount(Helper *helper) const
   if (bitCount == 0) {
     throw EXCEPTION(GenericException, S("Could not find bitCount value."));
   }
-  return std::stol(bitCount->getValue().get());
+  return (Word)strToInt(bitCount->getValue().get(), UINT_MAX);
 }
 
 
diff --git a/Sources/Spp/Ast/IntegerType.cpp b/Sources/Spp/Ast/IntegerType.cpp
index 6c142a1..b00e450 100644
--- a/Sources/Spp/Ast/IntegerType.cpp
+++ b/Sources/Spp/Ast/IntegerType.cpp
@@ -32,7 +32,7 @@ Word IntegerType::getBitCount(Helper *helper) const
   if (bitCountText == 0) {
     throw EXCEPTION(GenericException, S("Could not find bitCount value."));
   }
-  return std::stol(bitCountText->getValue().get());
+  return (Word)strToInt(bitCountText->getValue().get(), UINT_MAX);
 }
 
 
diff --git a/Sources/Spp/Ast/Template.cpp b/Sources/Spp/Ast/Template.cpp
index 1a3e614..fb464d9 100644
--- a/Sources/Spp/Ast/Template.cpp
+++ b/Sources/Spp/Ast/Template.cpp
@@ -150,7 +150,7 @@ Bool Template::matchTemplateVar(
       }
       auto newVar = static_cast<Core::Data::Ast::IntegerLiteral*>(templateInput);
       ASSERT(newVar != 0);
-      return std::stol(newVar->getValue().get()) == std::stol(var->getValue().get());
+      return strToInt(newVar->getValue().get(), LONG_MAX) == strToInt(var->getValue().get(), LONG_MAX);
     }
 
     case TemplateVarType::STRING: {
diff --git a/Sources/Spp/CodeGen/CommandGenerator.cpp b/Sources/Spp/CodeGen/CommandGenerator.cpp
index 4176707..8760d2a 100644
--- a/Sources/Spp/CodeGen/CommandGenerator.cpp
+++ b/Sources/Spp/CodeGen/CommandGenerator.cpp
@@ -281,7 +281,7 @@ Bool CommandGenerator::_generateContinueStatement(
 
   // Get the steps.
   auto stepsNode = ti_cast<Core::Data::Ast::IntegerLiteral>(astNode->getSteps().get());
-  auto steps = stepsNode == 0 ? 1 : std::stoi(stepsNode->getValue().get());
+  auto steps = stepsNode == 0 ? 1 : (Int)strToInt(stepsNode->getValue().get(), INT_MAX);
   if (steps <= 0) {
     cmdGenerator->astHelper->getNoticeStore()->add(
       newSrdObj<Spp::Notices::InvalidContinueStepsNotice>(astNode->findSourceLocation())
@@ -337,7 +337,7 @@ Bool CommandGenerator::_generateBreakStatement(
 
   // Get the steps.
   auto stepsNode = ti_cast<Core::Data::Ast::IntegerLiteral>(astNode->getSteps().get());
-  auto steps = stepsNode == 0 ? 1 : std::stoi(stepsNode->getValue().get());
+  auto steps = stepsNode == 0 ? 1 : (Int)strToInt(stepsNode->getValue().get(), INT_MAX);
   if (steps <= 0) {
     cmdGenerator->astHelper->getNoticeStore()->add(
       newSrdObj<Spp::Notices::InvalidBreakStepsNotice>(astNode->findSourceLocation())
diff --git a/Sources/Spp/CodeGen/ExpressionGenerator.cpp b/Sources/Spp/CodeGen/ExpressionGenerator.cpp
index 16768df..8ff9726 100644
--- a/Sources/Spp/CodeGen/ExpressionGenerator.cpp
+++ b/Sources/Spp/CodeGen/ExpressionGenerator.cpp
@@ -2329,11 +2329,11 @@ Bool ExpressionGenerator::_generateIntegerLiteral(
   if (*src == C('i') || *src == C('I')) {
     typeRequested = true;
     ++src;
-    if (getStrLen(src) > 0) size = std::stoi(src);
+    if (getStrLen(src) > 0) size = (Int)strToInt(src, INT_MAX);
   } else if (compareStr(src, S("ص"), 2) == 0) {
     typeRequested = true;
     src += 2;
-    if (getStrLen(src) > 0) size = std::stoi(src);
+    if (getStrLen(src) > 0) size = (Int)strToInt(src, INT_MAX);
   }
   if (size == 0) {
     if (value == 0 || value == 1) {
@@ -2383,18 +2383,18 @@ Bool ExpressionGenerator::_generateFloatLiteral(
   // TODO: Consider the different float sizes.
 
   // Parse the given value.
-  std::size_t numSize;
-  Double value = std::stof(src, &numSize);
-  src += numSize;
+  Char *srcEnd;
+  Double value = strtof(src, &srcEnd);
+  src = srcEnd;
 
   // Determine float size.
   Int size = 32;
   if (*src == C('f') || *src == C('F')) {
     ++src;
-    if (getStrLen(src) > 0) size = std::stoi(src);
+    if (getStrLen(src) > 0) size = (Int)strToInt(src, INT_MAX);
   } else if (compareStr(src, S("ع"), 2) == 0) {
     src += 2;
-    if (getStrLen(src) > 0) size = std::stoi(src);
+    if (getStrLen(src) > 0) size = (Int)strToInt(src, INT_MAX);
   }
 
   // Get the requested float type.
diff --git a/Sources/Spp/Grammar/tools.cpp b/Sources/Spp/Grammar/tools.cpp
index 964560e..9c981c7 100644
--- a/Sources/Spp/Grammar/tools.cpp
+++ b/Sources/Spp/Grammar/tools.cpp
@@ -125,7 +125,7 @@ Bool parseMinMax(
   resultAst = mulOp->getFirst().get();
   auto intLiteral = mulOp->getSecond().ti_cast_get<Core::Data::Ast::IntegerLiteral>();
   if (intLiteral != 0) {
-    auto num = std::stoi(intLiteral->getValue().get());
+    auto num = (Int)strToInt(intLiteral->getValue().get(), INT_MAX);
     min = newSrdObj<TiInt>(num);
     max = newSrdObj<TiInt>(num);
     return true;
@@ -153,7 +153,7 @@ Bool parseMinMax(
       );
       return false;
     }
-    auto num = std::stoi(intLiteral->getValue().get());
+    auto num = (Int)strToInt(intLiteral->getValue().get(), INT_MAX);
     min = newSrdObj<TiInt>(num);
   }
   auto second = list->get(1).get();
@@ -165,7 +165,7 @@ Bool parseMinMax(
       );
       return false;
     }
-    auto num = std::stoi(intLiteral->getValue().get());
+    auto num = (Int)strToInt(intLiteral->getValue().get(), INT_MAX);
     max = newSrdObj<TiInt>(num);
   }
   return true;
@@ -314,7 +314,9 @@ Bool parseValueAst(TiObject *valueAst, Core::Notices::Store *noticeStore, TioSha
     result = PARSE_REF(qualifier);
     return true;
   } else if (valueAst->isDerivedFrom<Core::Data::Ast::IntegerLiteral>()) {
-    result = TiInt::create(std::stol(static_cast<Core::Data::Ast::IntegerLiteral*>(valueAst)->getValue().get()));
+    result = TiInt::create(
+      (Int)strToInt(static_cast<Core::Data::Ast::IntegerLiteral*>(valueAst)->getValue().get(), INT_MAX)
+    );
     return true;
   } else if (valueAst->isDerivedFrom<Core::Data::Ast::IntegerLiteral>()) {
     result = TiStr::create(static_cast<Core::Data::Ast::StringLiteral*>(valueAst)->getValue());
diff --git a/Sources/Spp/Handlers/handlers.cpp b/Sources/Spp/Handlers/handlers.cpp
index 160ae02..59a51fc 100644
--- a/Sources/Spp/Handlers/handlers.cpp
+++ b/Sources/Spp/Handlers/handlers.cpp
@@ -105,7 +105,7 @@ Bool parseNumber(
 ) {
   auto metadata = ti_cast<Core::Data::Ast::MetaHaving>(ast);
   if (ast->isA<Core::Data::Ast::IntegerLiteral>()) {
-    result = std::stol(static_cast<Core::Data::Ast::IntegerLiteral*>(ast)->getValue().get());
+    result = (Word)strToInt(static_cast<Core::Data::Ast::IntegerLiteral*>(ast)->getValue().get(), UINT_MAX);
     return true;
   } else {
     if (metadata) {
-- 
2.43.0


From e10f8d7a81ea443d8b6ac64278c49cc0a37ab235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:43 +0000
Subject: [PATCH 05/27] fix: next_arg with an unknown type is rejected instead
 of crashing the compiler

---
 Sources/Spp/CodeGen/ExpressionGenerator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sources/Spp/CodeGen/ExpressionGenerator.cpp b/Sources/Spp/CodeGen/ExpressionGenerator.cpp
index 8ff9726..dffdf86 100644
--- a/Sources/Spp/CodeGen/ExpressionGenerator.cpp
+++ b/Sources/Spp/CodeGen/ExpressionGenerator.cpp
@@ -2135,6 +2135,7 @@ Bool ExpressionGenerator::_generateNextArgOp(
 
   // Get the target type.
   auto targetAstType = expGenerator->astHelper->traceType(astNode->getTargetType().get());
+  if (targetAstType == 0) return false;
   if (targetAstType->getInitializationMethod(expGenerator->astHelper) != Ast::TypeInitMethod::NONE) {
     targetAstType = expGenerator->astHelper->getReferenceTypeFor(targetAstType, Ast::ReferenceMode::IMPLICIT);
   }
-- 
2.43.0


From 265fc03c782e54744a8a1fb686f2011375a14663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:51 +0000
Subject: [PATCH 06/27] fix: a preprocess statement whose dependencies fail to
 build fails

---
 Sources/Spp/CodeGen/AstProcessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sources/Spp/CodeGen/AstProcessor.cpp b/Sources/Spp/CodeGen/AstProcessor.cpp
index 908b718..55d5de7 100644
--- a/Sources/Spp/CodeGen/AstProcessor.cpp
+++ b/Sources/Spp/CodeGen/AstProcessor.cpp
@@ -223,7 +223,7 @@ Bool AstProcessor::_processPreprocessStatement(
       }
   }
 
-  astProcessor->executing->finalizeExecutionEntry(buildSession.get());
+  if (!astProcessor->executing->finalizeExecutionEntry(buildSession.get())) result = false;
 
   TiObject *prevPreprocessOwner = astProcessor->currentPreprocessOwner;
   Int prevPreprocessInsertionPosition = astProcessor->currentPreprocessInsertionPosition;
-- 
2.43.0


From 2543dcb1adb1bca07d196f38c0bbca1c9b23cc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:29 +0000
Subject: [PATCH 07/27] fix: a named argument that clashes with the name of an
 unnamed one is rejected instead of crashing

---
 Sources/Spp/Handlers/FunctionParsingHandler.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Sources/Spp/Handlers/FunctionParsingHandler.cpp b/Sources/Spp/Handlers/FunctionParsingHandler.cpp
index c0c072d..3b89b9f 100644
--- a/Sources/Spp/Handlers/FunctionParsingHandler.cpp
+++ b/Sources/Spp/Handlers/FunctionParsingHandler.cpp
@@ -195,7 +195,9 @@ Bool FunctionParsingHandler::parseArg(
   }
   if (result->findIndex(name) != -1) {
     // This arg name is already in use.
-    state->addNotice(newSrdObj<Spp::Notices::InvalidFunctionArgNameNotice>(link->findSourceLocation()));
+    state->addNotice(newSrdObj<Spp::Notices::InvalidFunctionArgNameNotice>(
+      Core::Data::Ast::findSourceLocation(astNode.get())
+    ));
     return false;
   }
   result->set(name, type);
-- 
2.43.0


From c71014d5df7c481464c5975bea50be3bc24d69f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:29 +0000
Subject: [PATCH 08/27] fix: a macro with two arguments of the same name is
 rejected instead of ending the compiler with an exception

---
 Sources/Spp/Handlers/MacroParsingHandler.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/Sources/Spp/Handlers/MacroParsingHandler.cpp b/Sources/Spp/Handlers/MacroParsingHandler.cpp
index 60d914c..9fee38c 100644
--- a/Sources/Spp/Handlers/MacroParsingHandler.cpp
+++ b/Sources/Spp/Handlers/MacroParsingHandler.cpp
@@ -135,10 +135,20 @@ Bool MacroParsingHandler::parseArg(
       state->addNotice(newSrdObj<Spp::Notices::InvalidMacroArgDefNotice>(link->findSourceLocation()));
       return false;
     }
+    if (result->findIndex(name->getValue().get()) != -1) {
+      // This arg name is already in use.
+      state->addNotice(newSrdObj<Spp::Notices::InvalidMacroArgDefNotice>(link->findSourceLocation()));
+      return false;
+    }
     result->add(name->getValue().get(), link->getSecond());
     return true;
   } else if (arg->isDerivedFrom<Core::Data::Ast::Identifier>()) {
     auto name = static_cast<Core::Data::Ast::Identifier*>(arg);
+    if (result->findIndex(name->getValue().get()) != -1) {
+      // This arg name is already in use.
+      state->addNotice(newSrdObj<Spp::Notices::InvalidMacroArgDefNotice>(name->findSourceLocation()));
+      return false;
+    }
     result->add(name->getValue().get(), TioSharedPtr::null);
     return true;
   } else {
-- 
2.43.0


From 2b303797ab0c6e0845f4a53408f9cc9c8ac2992d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:53 +0000
Subject: [PATCH 09/27] fix: an empty argument in a handler statement is
 rejected instead of crashing

---
 Sources/Spp/Handlers/TypeHandlersParsingHandler.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Sources/Spp/Handlers/TypeHandlersParsingHandler.cpp b/Sources/Spp/Handlers/TypeHandlersParsingHandler.cpp
index 1191443..baac607 100644
--- a/Sources/Spp/Handlers/TypeHandlersParsingHandler.cpp
+++ b/Sources/Spp/Handlers/TypeHandlersParsingHandler.cpp
@@ -556,7 +556,7 @@ Bool TypeHandlersParsingHandler::prepareInputArg(
   Processing::ParserState *state, TioSharedPtr input, Char const *&inputName, TioSharedPtr &inputType,
   Char const *defaultName
 ) {
-  if (input->isDerivedFrom<Core::Data::Ast::Bracket>()) {
+  if (input != 0 && input->isDerivedFrom<Core::Data::Ast::Bracket>()) {
     auto bracket = input.s_cast_get<Core::Data::Ast::Bracket>();
     if (bracket->getType() == Core::Data::Ast::BracketType::ROUND) {
       input = bracket->getOperand();
@@ -567,6 +567,12 @@ Bool TypeHandlersParsingHandler::prepareInputArg(
       return false;
     }
   }
+  if (input == 0) {
+    state->addNotice(newSrdObj<Spp::Notices::InvalidHandlerStatementNotice>(
+      Core::Data::Ast::findSourceLocation(state->getData().get())
+    ));
+    return false;
+  }
   if (input->isDerivedFrom<Core::Data::Ast::LinkOperator>()) {
     auto linkOperator = input.s_cast_get<Core::Data::Ast::LinkOperator>();
     auto inputNameId = linkOperator->getFirst().ti_cast<Core::Data::Ast::Identifier>();
-- 
2.43.0


From b0d60e4cd5120924efce93de9f0c09d5bbb7d2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:54 +0000
Subject: [PATCH 10/27] fix: a template handler whose arguments are rejected no
 longer crashes

---
 Sources/Spp/Handlers/TypeHandlersParsingHandler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sources/Spp/Handlers/TypeHandlersParsingHandler.cpp b/Sources/Spp/Handlers/TypeHandlersParsingHandler.cpp
index baac607..d679a59 100644
--- a/Sources/Spp/Handlers/TypeHandlersParsingHandler.cpp
+++ b/Sources/Spp/Handlers/TypeHandlersParsingHandler.cpp
@@ -134,8 +134,8 @@ void TypeHandlersParsingHandler::onProdEnd(Processing::Parser *parser, Processin
   }
 
   if (success) {
-    if (tmpltArgs != 0) {
-      auto def = state->getData().s_cast_get<Core::Data::Ast::Definition>();
+    auto def = state->getData().ti_cast_get<Core::Data::Ast::Definition>();
+    if (tmpltArgs != 0 && def != 0) {
       def->setTarget(Ast::Template::create({}, {
         { S("varDefs"), tmpltArgs },
         { S("body"), def->getTarget() }
-- 
2.43.0


From b740537d96636ad1b0c815a0f5da0762123be243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:54 +0000
Subject: [PATCH 11/27] fix: the body of a type-level pointer handler keeps its
 own first argument

---
 Sources/Spp/Handlers/TypeHandlersParsingHandler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sources/Spp/Handlers/TypeHandlersParsingHandler.cpp b/Sources/Spp/Handlers/TypeHandlersParsingHandler.cpp
index d679a59..4eb3dd9 100644
--- a/Sources/Spp/Handlers/TypeHandlersParsingHandler.cpp
+++ b/Sources/Spp/Handlers/TypeHandlersParsingHandler.cpp
@@ -508,7 +508,7 @@ TioSharedPtr TypeHandlersParsingHandler::createFunction(
     if (body != 0) {
       // Create the function.
       auto funcTypeClone = Core::Data::Ast::clone(funcType.get(), sourceLocation.get());
-      funcTypeClone->getArgTypes()->set(0, this->prepareThisType(sourceLocation));
+      if (member) funcTypeClone->getArgTypes()->set(0, this->prepareThisType(sourceLocation));
       auto func = Spp::Ast::Function::create({}, {
         {S("type"), funcTypeClone},
         {S("body"), body}
-- 
2.43.0


From 2397b35e76236f02a555c965a82d625bf369de77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:54 +0000
Subject: [PATCH 12/27] fix: unnamed arguments of a parentheses handler get
 distinct names

---
 Sources/Spp/Handlers/TypeHandlersParsingHandler.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Sources/Spp/Handlers/TypeHandlersParsingHandler.cpp b/Sources/Spp/Handlers/TypeHandlersParsingHandler.cpp
index 4eb3dd9..cc9879d 100644
--- a/Sources/Spp/Handlers/TypeHandlersParsingHandler.cpp
+++ b/Sources/Spp/Handlers/TypeHandlersParsingHandler.cpp
@@ -434,15 +434,18 @@ Bool TypeHandlersParsingHandler::createParensOpHandler(
   if (thisType != 0) argTypes->add(S("this"), thisType);
   for (Int i = 0; i < params->getCount(); ++i) {
     Char const *inputName;
+    Str generatedName;
     TioSharedPtr inputType;
     auto inputDef = params->get(i);
     if (!this->prepareInputArg(state, inputDef, inputName, inputType, params->getCount() == 1 ? S("value") : S(""))) {
       return false;
     }
     if (inputName == S("")) {
-      inputName = S("__");
-      inputName += (LongInt)i;
-    } else if (argTypes->findIndex(inputName) != -1) {
+      generatedName = S("__");
+      generatedName += (LongInt)i;
+      inputName = generatedName.getBuf();
+    }
+    if (argTypes->findIndex(inputName) != -1) {
       state->addNotice(newSrdObj<Spp::Notices::InvalidFunctionArgNameNotice>(
         Core::Data::Ast::findSourceLocation(inputDef.get())
       ));
-- 
2.43.0


From 3a599876f04d56b1a580fc0795100c1c353a4d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 13/27] fix: ASTs with different numbers of parts are not equal

---
 Sources/Core/Data/Ast/ast.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Sources/Core/Data/Ast/ast.cpp b/Sources/Core/Data/Ast/ast.cpp
index 2d02940..14d7cb4 100644
--- a/Sources/Core/Data/Ast/ast.cpp
+++ b/Sources/Core/Data/Ast/ast.cpp
@@ -271,6 +271,7 @@ Bool isEqual(TiObject *obj1, TiObject *obj2)
   auto bindings1 = ti_cast<Binding>(obj1);
   auto bindings2 = ti_cast<Binding>(obj2);
   if (bindings1 != 0 && bindings2 != 0) {
+    if (bindings1->getMemberCount() != bindings2->getMemberCount()) return false;
     for (Int i = 0; i < bindings1->getMemberCount(); ++i) {
       if (!isEqual(bindings1->getMember(i), bindings2->getMember(i))) return false;
     }
@@ -279,6 +280,7 @@ Bool isEqual(TiObject *obj1, TiObject *obj2)
   auto mapContainer1 = ti_cast<MapContaining<TiObject>>(obj1);
   auto mapContainer2 = ti_cast<MapContaining<TiObject>>(obj2);
   if (mapContainer1 != 0 && mapContainer2 != 0) {
+    if (mapContainer1->getElementCount() != mapContainer2->getElementCount()) return false;
     for (Int i = 0; i < mapContainer1->getElementCount(); ++i) {
       if (mapContainer1->getElementKey(i) != mapContainer2->getElementKey(i)) return false;
     }
@@ -287,6 +289,7 @@ Bool isEqual(TiObject *obj1, TiObject *obj2)
   auto container1 = ti_cast<Containing<TiObject>>(obj1);
   auto container2 = ti_cast<Containing<TiObject>>(obj2);
   if (container1 != 0 && container2 != 0) {
+    if (container1->getElementCount() != container2->getElementCount()) return false;
     for (Int i = 0; i < container1->getElementCount(); ++i) {
       if (!isEqual(container1->getElement(i), container2->getElement(i))) return false;
     }
-- 
2.43.0


From 07a41ca972a75bc57c0d87034146d887ebdf564d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 14/27] fix: member macros can be called with more than one
 argument

---
 Sources/Spp/CodeGen/AstProcessor.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Sources/Spp/CodeGen/AstProcessor.cpp b/Sources/Spp/CodeGen/AstProcessor.cpp
index 55d5de7..8d061e0 100644
--- a/Sources/Spp/CodeGen/AstProcessor.cpp
+++ b/Sources/Spp/CodeGen/AstProcessor.cpp
@@ -156,7 +156,13 @@ Bool AstProcessor::_processParamPass(
       if (!astProcessor->expressionComputation->computeResultType(thisArg, owner, member)) return false;
       if (owner->isDerivedFrom<Spp::Ast::Type>()) {
         owner = astProcessor->astHelper->tryGetDeepReferenceContentType(static_cast<Spp::Ast::Type*>(owner));
-        if (member) argsList.insert(0, thisArg);
+        if (member) {
+          if (args != &argsList) {
+            for (Int i = 0; i < args->getElementCount(); ++i) argsList.add(args->getElement(i));
+            args = &argsList;
+          }
+          argsList.insert(0, thisArg);
+        }
       }
       operand = linkOp->getSecond().get();
       foreachFlags = Core::Data::Seeker::Flags::SKIP_OWNERS;
-- 
2.43.0


From b868ac5eb90e359840b003f1871123c6cd039e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 15/27] fix: using a macro no longer changes the names in the
 body of the macro itself

---
 Sources/Spp/CodeGen/AstProcessor.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/Sources/Spp/CodeGen/AstProcessor.cpp b/Sources/Spp/CodeGen/AstProcessor.cpp
index 8d061e0..d80c9c2 100644
--- a/Sources/Spp/CodeGen/AstProcessor.cpp
+++ b/Sources/Spp/CodeGen/AstProcessor.cpp
@@ -771,15 +771,13 @@ Bool AstProcessor::_interpolateAst_dynMapContaining(
           obj->getElementKey(i), prefixSize, arg->getValue().get(), suffix, newKey, 1000
         );
         // Make sure the new key isn't already used.
-        if (obj->findElementIndex(newKey) != -1) {
+        auto usedIndex = obj->findElementIndex(newKey);
+        if ((usedIndex != -1 && usedIndex != i) || destObj->findElementIndex(newKey) != -1) {
           astProcessor->astHelper->getNoticeStore()->add(
             newSrdObj<Spp::Notices::InvalidMacroArgNotice>(arg->findSourceLocation())
           );
           return false;
         }
-        auto value = obj->getElement(index);
-        obj->insertElement(index, newKey, value);
-        obj->removeElement(index + 1);
       } else {
         astProcessor->astHelper->getNoticeStore()->add(
           newSrdObj<Spp::Notices::InvalidMacroArgNotice>(Core::Data::Ast::findSourceLocation(arg))
-- 
2.43.0


From e58631d00dcb0473dcf7b2a4732305d91ac06ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 16/27] fix: names and strings of any length are kept whole by
 macros

---
 Sources/Spp/CodeGen/AstProcessor.cpp | 69 ++++++++++++++--------------
 Sources/Spp/CodeGen/AstProcessor.h   |  4 +-
 2 files changed, 36 insertions(+), 37 deletions(-)

diff --git a/Sources/Spp/CodeGen/AstProcessor.cpp b/Sources/Spp/CodeGen/AstProcessor.cpp
index d80c9c2..575d018 100644
--- a/Sources/Spp/CodeGen/AstProcessor.cpp
+++ b/Sources/Spp/CodeGen/AstProcessor.cpp
@@ -464,11 +464,11 @@ Bool AstProcessor::_interpolateAst_identifier(
   Core::Data::SourceLocation *sl, TioSharedPtr &result
 ) {
   PREPARE_SELF(astProcessor, AstProcessor);
-  Char var[1000];
+  Str var;
   Word prefixSize = 0;
   Char const *suffix = 0;
-  astProcessor->parseStringTemplate(obj->getValue().get(), var, 1000, prefixSize, suffix);
-  auto index = argNames->findPos(Str(true, var));
+  astProcessor->parseStringTemplate(obj->getValue().get(), var, prefixSize, suffix);
+  auto index = argNames->findPos(var);
   if (index != -1) {
     auto arg = args->getElement(index);
     if (prefixSize != 0 || suffix != 0) {
@@ -485,9 +485,9 @@ Bool AstProcessor::_interpolateAst_identifier(
         );
         return false;
       }
-      Char newVar[1000];
+      Str newVar;
       astProcessor->generateStringFromTemplate(
-        obj->getValue().get(), prefixSize, text, suffix, newVar, 1000
+        obj->getValue().get(), prefixSize, text, suffix, newVar
       );
       result = Core::Data::Ast::Identifier::create({
         { S("value"), TiStr(newVar) },
@@ -529,11 +529,11 @@ Bool AstProcessor::_interpolateAst_stringLiteral(
   Core::Data::SourceLocation *sl, TioSharedPtr &result
 ) {
   PREPARE_SELF(astProcessor, AstProcessor);
-  Char var[1000];
+  Str var;
   Word prefixSize = 0;
   Char const *suffix = 0;
-  astProcessor->parseStringTemplate(obj->getValue().get(), var, 1000, prefixSize, suffix, S("{{"), S("}}"));
-  auto index = argNames->findPos(Str(true, var));
+  astProcessor->parseStringTemplate(obj->getValue().get(), var, prefixSize, suffix, S("{{"), S("}}"));
+  auto index = argNames->findPos(var);
   if (index != -1) {
     auto arg = args->getElement(index);
     if (prefixSize != 0 || suffix != 0) {
@@ -550,9 +550,9 @@ Bool AstProcessor::_interpolateAst_stringLiteral(
         );
         return false;
       }
-      Char newVar[1000];
+      Str newVar;
       astProcessor->generateStringFromTemplate(
-        obj->getValue().get(), prefixSize, text, suffix, newVar, 1000
+        obj->getValue().get(), prefixSize, text, suffix, newVar
       );
       result = Core::Data::Ast::StringLiteral::create({
         { S("value"), TiStr(newVar) },
@@ -575,16 +575,16 @@ Bool AstProcessor::_interpolateAst_tiStr(
   Core::Data::SourceLocation *sl, TioSharedPtr &result
 ) {
   PREPARE_SELF(astProcessor, AstProcessor);
-  Char var[1000];
+  Str var;
   Word prefixSize = 0;
   Char const *suffix = 0;
-  astProcessor->parseStringTemplate(obj->get(), var, 1000, prefixSize, suffix);
-  auto index = argNames->findPos(Str(true, var));
+  astProcessor->parseStringTemplate(obj->get(), var, prefixSize, suffix);
+  auto index = argNames->findPos(var);
   if (index != -1) {
     auto arg = ti_cast<Core::Data::Ast::Identifier>(args->getElement(index));
     if (arg != 0) {
-      Char newVar[1000];
-      astProcessor->generateStringFromTemplate(obj->get(), prefixSize, arg->getValue().get(), suffix, newVar, 1000);
+      Str newVar;
+      astProcessor->generateStringFromTemplate(obj->get(), prefixSize, arg->getValue().get(), suffix, newVar);
       result = TiStr::create(newVar);
     } else {
       astProcessor->astHelper->getNoticeStore()->add(
@@ -661,11 +661,11 @@ Bool AstProcessor::_interpolateAst_binding(
   for (Int i = 0; i < obj->getMemberCount(); ++i) {
     if (obj->getMemberHoldMode(i) == HoldMode::VALUE && obj->getMemberNeededType(i) == TiStr::getTypeInfo()) {
       // replace string, if possible.
-      Char var[1000];
+      Str var;
       Word prefixSize = 0;
       Char const *suffix = 0;
-      astProcessor->parseStringTemplate(obj->refMember<TiStr>(i).get(), var, 1000, prefixSize, suffix);
-      Int index = argNames->findPos(Str(true, var));
+      astProcessor->parseStringTemplate(obj->refMember<TiStr>(i).get(), var, prefixSize, suffix);
+      Int index = argNames->findPos(var);
       if (index != -1) {
         auto arg = args->getElement(index);
         Char const *text;
@@ -680,9 +680,9 @@ Bool AstProcessor::_interpolateAst_binding(
           );
           return false;
         }
-        Char newVar[1000];
+        Str newVar;
         astProcessor->generateStringFromTemplate(
-          obj->refMember<TiStr>(i).get(), prefixSize, text, suffix, newVar, 1000
+          obj->refMember<TiStr>(i).get(), prefixSize, text, suffix, newVar
         );
         destObj->refMember<TiStr>(i) = newVar;
       } else {
@@ -757,18 +757,18 @@ Bool AstProcessor::_interpolateAst_dynMapContaining(
   PREPARE_SELF(astProcessor, AstProcessor);
   for (Int i = 0; i < obj->getElementCount(); ++i) {
     // Generate the new key value.
-    Char key[1000];
-    Char newKey[1000];
+    Str key;
+    Str newKey;
     Word prefixSize = 0;
     Char const *suffix = 0;
-    astProcessor->parseStringTemplate(obj->getElementKey(i), key, 1000, prefixSize, suffix);
-    auto index = argNames->findPos(Str(true, key));
+    astProcessor->parseStringTemplate(obj->getElementKey(i), key, prefixSize, suffix);
+    auto index = argNames->findPos(key);
     if (index != -1) {
       // The key can be replaced with the new key.
       auto arg = ti_cast<Core::Data::Ast::Identifier>(args->getElement(index));
       if (arg != 0) {
         astProcessor->generateStringFromTemplate(
-          obj->getElementKey(i), prefixSize, arg->getValue().get(), suffix, newKey, 1000
+          obj->getElementKey(i), prefixSize, arg->getValue().get(), suffix, newKey
         );
         // Make sure the new key isn't already used.
         auto usedIndex = obj->findElementIndex(newKey);
@@ -785,7 +785,7 @@ Bool AstProcessor::_interpolateAst_dynMapContaining(
         return false;
       }
     } else {
-      copyStr(obj->getElementKey(i), newKey);
+      newKey = obj->getElementKey(i).getBuf();
     }
     // Generate the value.
     if (obj->getElementHoldMode(i) == HoldMode::SHARED_REF) {
@@ -807,33 +807,32 @@ Bool AstProcessor::_interpolateAst_dynMapContaining(
 // Helper Functions
 
 void AstProcessor::parseStringTemplate(
-  Char const *str, Char *var, Word varBufSize, Word &prefixSize, Char const *&suffix,
+  Char const *str, Str &var, Word &prefixSize, Char const *&suffix,
   Char const *varOpening, Char const *varClosing
 ) {
   auto varStart = SBSTR(str).findPos(varOpening) + 2;
   if (varStart >= 2) {
     auto varSize = SBSTR(str + varStart).findPos(varClosing);
     if (varSize > 0) {
-      SBSTR(var).assign(str + varStart, varSize, varBufSize);
+      var.assign(str + varStart, varSize);
       prefixSize = varStart - 2;
       suffix = str + varStart + varSize + 2;
       return;
     }
   }
-  SBSTR(var).assign(str, varBufSize);
+  var = str;
   prefixSize = 0;
   suffix = 0;
 }
 
 
 void AstProcessor::generateStringFromTemplate(
-  Char const *prefix, Word prefixSize, Char const *var, Char const *suffix, Char *output, Word outputBufSize
+  Char const *prefix, Word prefixSize, Char const *var, Char const *suffix, Str &output
 ) {
-  SbStr result(output);
-  result.assign(S(""), outputBufSize);
-  if (prefixSize > 0) result.append(prefix, prefixSize, outputBufSize);
-  result.append(var, outputBufSize);
-  if (suffix != 0) result.append(suffix, outputBufSize);
+  output = S("");
+  if (prefixSize > 0) output.append(prefix, prefixSize);
+  output.append(var);
+  if (suffix != 0) output.append(suffix);
 }
 
 } // namespace
diff --git a/Sources/Spp/CodeGen/AstProcessor.h b/Sources/Spp/CodeGen/AstProcessor.h
index 1708a56..70d40f9 100644
--- a/Sources/Spp/CodeGen/AstProcessor.h
+++ b/Sources/Spp/CodeGen/AstProcessor.h
@@ -282,12 +282,12 @@ class AstProcessor : public TiObject, public DynamicBinding, public DynamicInter
   /// @{
 
   private: void parseStringTemplate(
-    Char const *str, Char *var, Word varBufSize, Word &prefixSize, Char const *&suffix,
+    Char const *str, Str &var, Word &prefixSize, Char const *&suffix,
     Char const *varOpening = S("__"), Char const *varClosing = S("__")
   );
 
   private: void generateStringFromTemplate(
-    Char const *prefix, Word prefixSize, Char const *var, Char const *suffix, Char *output, Word outputBufSize
+    Char const *prefix, Word prefixSize, Char const *var, Char const *suffix, Str &output
   );
 
   /// @}
-- 
2.43.0


From 2bfb7cdd2e73d75deb36f479a5a0a3579b298519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:11 +0000
Subject: [PATCH 17/27] fix: text of a string that merely equals the name of a
 macro argument is kept

---
 Sources/Spp/CodeGen/AstProcessor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Sources/Spp/CodeGen/AstProcessor.cpp b/Sources/Spp/CodeGen/AstProcessor.cpp
index 575d018..a9d204f 100644
--- a/Sources/Spp/CodeGen/AstProcessor.cpp
+++ b/Sources/Spp/CodeGen/AstProcessor.cpp
@@ -534,7 +534,8 @@ Bool AstProcessor::_interpolateAst_stringLiteral(
   Char const *suffix = 0;
   astProcessor->parseStringTemplate(obj->getValue().get(), var, prefixSize, suffix, S("{{"), S("}}"));
   auto index = argNames->findPos(var);
-  if (index != -1) {
+  // Text that is not enclosed in the template brackets isn't a reference to an argument.
+  if (index != -1 && suffix != 0) {
     auto arg = args->getElement(index);
     if (prefixSize != 0 || suffix != 0) {
       // We have an identifier string template, so we need the matching arg to be an identifier as well.
-- 
2.43.0


From 8e5d32b621aeebc3a50136efa9b1f46122ec5aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:04 +0000
Subject: [PATCH 18/27] fix: inserting a tree that is not a scope into an
 expression does not read it as a scope

---
 Sources/Spp/CodeGen/AstProcessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sources/Spp/CodeGen/AstProcessor.cpp b/Sources/Spp/CodeGen/AstProcessor.cpp
index a9d204f..3e8b27f 100644
--- a/Sources/Spp/CodeGen/AstProcessor.cpp
+++ b/Sources/Spp/CodeGen/AstProcessor.cpp
@@ -422,7 +422,7 @@ Bool AstProcessor::_insertInterpolatedAst(
     if (ownerContainer == 0) {
       throw EXCEPTION(GenericException, S("Unexpected AST insert location."));
     }
-    auto insertedScope = result.s_cast_get<Core::Data::Ast::Scope>();
+    auto insertedScope = result.ti_cast_get<Core::Data::Ast::Scope>();
     if (insertedScope != 0 && insertedScope->getCount() == 1) {
       ownerContainer->setElement(astProcessor->currentPreprocessInsertionPosition, insertedScope->getElement(0));
     } else {
-- 
2.43.0


From 8b8d12dc8a86cf7f021a20a5970060a4d70fce2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:33 +0000
Subject: [PATCH 19/27] fix: ArgPack registers its type information under the
 name programs look it up by

---
 Sources/Spp/Ast/ArgPack.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sources/Spp/Ast/ArgPack.h b/Sources/Spp/Ast/ArgPack.h
index 5d7ec1a..e9f43b3 100644
--- a/Sources/Spp/Ast/ArgPack.h
+++ b/Sources/Spp/Ast/ArgPack.h
@@ -26,7 +26,7 @@ class ArgPack : public Core::Data::Node,
   //============================================================================
   // Type Info
 
-  TYPE_INFO(ArgPack, Core::Data::Node, "Spp.Ast", "Core", "alusus.org");
+  TYPE_INFO(ArgPack, Core::Data::Node, "Spp.Ast", "Spp", "alusus.org");
   IMPLEMENT_INTERFACES(
     Core::Data::Node, Binding, MapContaining<TiObject>,
     Core::Data::Ast::MetaHaving, Core::Data::Printable
-- 
2.43.0


From f5db019eb2cf46b9ef49648d9b7f9dba0fdf4a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:33 +0000
Subject: [PATCH 20/27] fix: TemplateVarDef registers its type information
 under the name programs look it up by

---
 Sources/Spp/Ast/TemplateVarDef.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Sources/Spp/Ast/TemplateVarDef.h b/Sources/Spp/Ast/TemplateVarDef.h
index cbff705..27e9e61 100644
--- a/Sources/Spp/Ast/TemplateVarDef.h
+++ b/Sources/Spp/Ast/TemplateVarDef.h
@@ -38,7 +38,7 @@ class TemplateVarDef: public Core::Data::Node, public Binding, public Core::Data
   //============================================================================
   // Type Info
 
-  TYPE_INFO(TemplateVarDef, Core::Data::Node, "Spp.Ast.Template", "Spp", "alusus.org", (
+  TYPE_INFO(TemplateVarDef, Core::Data::Node, "Spp.Ast", "Spp", "alusus.org", (
     INHERITANCE_INTERFACES(Binding, Core::Data::Ast::MetaHaving)
   ));
   OBJECT_FACTORY(TemplateVarDef);
-- 
2.43.0


From b8331b6479990c911765f0f6778a2cb93e49881a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:15 +0000
Subject: [PATCH 21/27] fix: the fourth and sixth part of a class with six
 parts are given their own names

---
 Sources/Core/Basic/containing_helpers.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Sources/Core/Basic/containing_helpers.h b/Sources/Core/Basic/containing_helpers.h
index ddeeadf..2d262ce 100644
--- a/Sources/Core/Basic/containing_helpers.h
+++ b/Sources/Core/Basic/containing_helpers.h
@@ -298,8 +298,8 @@ namespace Core { namespace Basic
   _IMPLEMENT_MAP_CONTAINING_GETKEY4(parent, var1, var2, var3, var4) \
   _IMPLEMENT_MAP_CONTAINING_GETKEY_CASE(parent, 4, VARNAMESTR_FROM_TUPLE var5)
 #define _IMPLEMENT_MAP_CONTAINING_GETKEY6(parent, var1, var2, var3, var4, var5, var6) \
-  _IMPLEMENT_MAP_CONTAINING_GETKEY5(parent, var1, var2, var3, var5, var5) \
-  _IMPLEMENT_MAP_CONTAINING_GETKEY_CASE(parent, 5, VARNAMESTR_FROM_TUPLE var5)
+  _IMPLEMENT_MAP_CONTAINING_GETKEY5(parent, var1, var2, var3, var4, var5) \
+  _IMPLEMENT_MAP_CONTAINING_GETKEY_CASE(parent, 5, VARNAMESTR_FROM_TUPLE var6)
 #define _IMPLEMENT_MAP_CONTAINING_GETKEY(parent, ...) \
   SELECT_MACRO(__VA_ARGS__, _, _, _, _, \
                _IMPLEMENT_MAP_CONTAINING_GETKEY6, \
-- 
2.43.0


From e0461278a2fcf6cd0e067fe289a67a0d4da41dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:14 +0000
Subject: [PATCH 22/27] fix: a definition that ends gives up its modifiers

---
 Sources/Core/Data/Ast/Definition.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sources/Core/Data/Ast/Definition.h b/Sources/Core/Data/Ast/Definition.h
index 1ff868b..12eaa4d 100644
--- a/Sources/Core/Data/Ast/Definition.h
+++ b/Sources/Core/Data/Ast/Definition.h
@@ -68,6 +68,7 @@ class Definition : public Node,
   public: virtual ~Definition()
   {
     DISOWN_SHAREDPTR(this->target);
+    DISOWN_SHAREDPTR(this->modifiers);
   }
 
 
-- 
2.43.0


From a8fcf97c7aed8f03465bf85a3feb5641a3cf2a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:14 +0000
Subject: [PATCH 23/27] fix: a route that ends gives up its data

---
 Sources/Core/Data/Ast/Route.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Sources/Core/Data/Ast/Route.h b/Sources/Core/Data/Ast/Route.h
index 5f586fb..30b35bb 100644
--- a/Sources/Core/Data/Ast/Route.h
+++ b/Sources/Core/Data/Ast/Route.h
@@ -88,6 +88,11 @@ class Route : public Node,
 
   IMPLEMENT_ATTR_MAP_CONSTRUCTOR(Route);
 
+  public: virtual ~Route()
+  {
+    DISOWN_SHAREDPTR(this->data);
+  }
+
 
   //============================================================================
   // Member Functions
-- 
2.43.0


From ac94a638fb0120f28a3f42cf5fcc0a436f657ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:55 +0000
Subject: [PATCH 24/27] fix: the build and grammar managers of programs have
 their operations bound

---
 Sources/Spp/Rt/BuildMgr.h   | 2 ++
 Sources/Spp/Rt/GrammarMgr.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/Sources/Spp/Rt/BuildMgr.h b/Sources/Spp/Rt/BuildMgr.h
index bbd312a..216c8e5 100644
--- a/Sources/Spp/Rt/BuildMgr.h
+++ b/Sources/Spp/Rt/BuildMgr.h
@@ -46,6 +46,8 @@ class BuildMgr : public TiObject, public DynamicBinding, public DynamicInterfaci
 
   public: BuildMgr(Core::Main::RootManager *rm, BuildManager *bm) : rootManager(rm), buildManager(bm)
   {
+    this->initBindingCaches();
+    this->initBindings();
   }
 
   public: BuildMgr(BuildMgr *parent)
diff --git a/Sources/Spp/Rt/GrammarMgr.h b/Sources/Spp/Rt/GrammarMgr.h
index df22e59..06b91fa 100644
--- a/Sources/Spp/Rt/GrammarMgr.h
+++ b/Sources/Spp/Rt/GrammarMgr.h
@@ -46,6 +46,8 @@ class GrammarMgr : public TiObject, public DynamicBinding, public DynamicInterfa
 
   public: GrammarMgr(Core::Main::RootManager *rm, Spp::Grammar::SppFactory *gf) : rootManager(rm), grammarFactory(gf)
   {
+    this->initBindingCaches();
+    this->initBindings();
   }
 
   public: GrammarMgr(GrammarMgr *parent)
-- 
2.43.0


From 4af167a9af07cd359a55086e5e8e4ff380f18f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:55 +0000
Subject: [PATCH 25/27] fix: derived generators and build managers work on the
 AST processor and items of their parents

---
 Sources/Spp/BuildManager.h          | 1 +
 Sources/Spp/CodeGen/Generator.h     | 1 +
 Sources/Spp/CodeGen/TypeGenerator.h | 1 +
 3 files changed, 3 insertions(+)

diff --git a/Sources/Spp/BuildManager.h b/Sources/Spp/BuildManager.h
index d48118c..b004a5e 100644
--- a/Sources/Spp/BuildManager.h
+++ b/Sources/Spp/BuildManager.h
@@ -86,6 +86,7 @@ class BuildManager : public TiObject, public DynamicBinding, public DynamicInter
     this->rootManager = parent->getRootManager();
     this->astHelper = parent->getAstHelper();
     this->generator = parent->getGenerator();
+    this->globalItemRepo = parent->globalItemRepo;
 
     this->initNonOfflineBuildSessions();
   }
diff --git a/Sources/Spp/CodeGen/Generator.h b/Sources/Spp/CodeGen/Generator.h
index 2de5f4c..31e6883 100644
--- a/Sources/Spp/CodeGen/Generator.h
+++ b/Sources/Spp/CodeGen/Generator.h
@@ -85,6 +85,7 @@ class Generator : public TiObject, public DynamicBinding, public DynamicInterfac
     this->typeGenerator = parent->getTypeGenerator();
     this->commandGenerator = parent->getCommandGenerator();
     this->expressionGenerator = parent->getExpressionGenerator();
+    this->astProcessor = parent->getAstProcessor();
   }
 
   public: virtual ~Generator()
diff --git a/Sources/Spp/CodeGen/TypeGenerator.h b/Sources/Spp/CodeGen/TypeGenerator.h
index 779eaaa..562d45e 100644
--- a/Sources/Spp/CodeGen/TypeGenerator.h
+++ b/Sources/Spp/CodeGen/TypeGenerator.h
@@ -56,6 +56,7 @@ class TypeGenerator : public TiObject, public DynamicBinding, public DynamicInte
     this->inheritBindings(parent);
     this->inheritInterfaces(parent);
     this->astHelper = parent->getAstHelper();
+    this->astProcessor = parent->getAstProcessor();
   }
 
   public: virtual ~TypeGenerator()
-- 
2.43.0


From a2492055390b5ccbbe4301a102d18a8d6291090b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:55 +0000
Subject: [PATCH 26/27] fix: the translation of the priority modifier is
 removed with the rest of the grammar

---
 Sources/Spp/Grammar/SppFactory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Sources/Spp/Grammar/SppFactory.cpp b/Sources/Spp/Grammar/SppFactory.cpp
index 168b79a..6741891 100644
--- a/Sources/Spp/Grammar/SppFactory.cpp
+++ b/Sources/Spp/Grammar/SppFactory.cpp
@@ -924,6 +924,7 @@ void SppFactory::cleanGrammar()
   this->remove(S("root.Main.Def.modifierTranslations.دون_ربط"));
   this->remove(S("root.Main.Def.modifierTranslations.حقنة"));
   this->remove(S("root.Main.Def.modifierTranslations.عملية"));
+  this->remove(S("root.Main.Def.modifierTranslations.أولوية"));
 
   // Remove commands from tilde commands list.
   this->removeProdsFromGroup(S("root.Main.PostfixTildeCmdGrp"), {
-- 
2.43.0


From 44917891d00008176c23c96d3caf37811e7047c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:26 +0000
Subject: [PATCH 27/27] fix: names of files to import that are too long no
 longer overflow the buffers

---
 Sources/Core/Main/RootManager.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/Sources/Core/Main/RootManager.cpp b/Sources/Core/Main/RootManager.cpp
index d6fe34d..5688e97 100644
--- a/Sources/Core/Main/RootManager.cpp
+++ b/Sources/Core/Main/RootManager.cpp
@@ -275,6 +275,8 @@ Bool RootManager::findFile(Char const *filename, std::array<Char,PATH_MAX> &resu
     thread_local static std::array<Char,PATH_MAX> fullPath;
     for (Int i = this->searchPaths.size()-1; i >= 0; --i) {
       Int len = this->searchPaths[i].getLength();
+      // Skip the paths that don't leave enough room for the file name and a separator.
+      if (len + 1 + getStrLen(filename) >= PATH_MAX) continue;
       copyStr(this->searchPaths[i], fullPath.data());
       if (fullPath.data()[len - 1] != C('/')) {
         copyStr(S("/"), fullPath.data() + len);
@@ -300,20 +302,27 @@ Bool RootManager::findFile(Char const *filename, std::array<Char,PATH_MAX> &resu
 
 Bool RootManager::tryFileName(Char const *path, std::array<Char,PATH_MAX> &resultFilename)
 {
+  auto pathLen = getStrLen(path);
+
+  // Names that don't fit in the buffer can't be the names of existing files.
+  if (pathLen >= PATH_MAX) return false;
+
   if (this->doesFileExist(path)) {
     copyStr(path, resultFilename.data());
     return true;
   }
 
-  auto pathLen = getStrLen(path);
-
   // Try source extensions.
   for (Int i = 0; i < sizeof(sourceExtensions) / sizeof(sourceExtensions[0]); ++i) {
+    if (pathLen + getStrLen(sourceExtensions[i]) >= PATH_MAX) continue;
     copyStr(path, resultFilename.data());
     copyStr(sourceExtensions[i], resultFilename.data()+pathLen);
     if (this->doesFileExist(resultFilename.data())) return true;
   }
 
+  // The longest addition to a library name is "lib" with ".dbg.dylib".
+  if (pathLen + getStrLen(S("lib.dbg.dylib")) >= PATH_MAX) return false;
+
   Char const *filename = strrchr(path, C('/'));
   if (filename == 0) filename = path;
   else ++filename;
-- 
2.43.0

