From 40f21cc38d40018a7475c24183825c0570c940e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 01/88] fix: dividing the most negative value by -1 trapped

---
 src/Unefunge93Strategy.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Unefunge93Strategy.cpp b/src/Unefunge93Strategy.cpp
index 8da81ed..be2a336 100644
--- a/src/Unefunge93Strategy.cpp
+++ b/src/Unefunge93Strategy.cpp
@@ -121,7 +121,7 @@ FungeError Unefunge93Strategy::instructionNot(){
 FungeError Unefunge93Strategy::instructionRemainder(){
 	stack_t a = stack.top().pop();
 	stack_t b = stack.top().pop();
-	if(a == 0){
+	if(a == 0 || a == -1){
 		stack.top().push(0);
 	}else{
 		stack.top().push(b%a);
@@ -155,6 +155,9 @@ FungeError Unefunge93Strategy::instructionDivide(){
 	stack_t b = stack.top().pop();
 	if(a == 0){
 		stack.top().push(0);
+	}else if(a == -1){
+		// Two's complement negation, the most negative value has no quotient
+		stack.top().push(static_cast<stack_t>(-static_cast<uint64_t>(b)));
 	}else{
 		stack.top().push(b/a);
 	}
-- 
2.43.0


From caf568c07293c9dcd1c0897f2f96574c31df3e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 02/88] fix: & lost a number that ends at end of input

---
 src/Unefunge93Strategy.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/Unefunge93Strategy.cpp b/src/Unefunge93Strategy.cpp
index be2a336..c9a5ffe 100644
--- a/src/Unefunge93Strategy.cpp
+++ b/src/Unefunge93Strategy.cpp
@@ -211,11 +211,10 @@ FungeError Unefunge93Strategy::instructionNumIn(){
 	while(c >= '0' && c <= '9'){
 		num = (num*10) + (c-'0');
 		c = getchar();
-		if(c == EOF){
-			return ERROR_UNSPEC;
-		}
 	}
-	ungetc(c, stdin);
+	if(c != EOF){
+		ungetc(c, stdin);
+	}
 	stack.top().push(num);
 	return ERROR_NONE;
 }
-- 
2.43.0


From 815680289789b32023d20cca88b4e79a663e016f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 03/88] fix: . printed only the low 32 bits of a cell

---
 src/Unefunge93Strategy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Unefunge93Strategy.cpp b/src/Unefunge93Strategy.cpp
index c9a5ffe..53ad889 100644
--- a/src/Unefunge93Strategy.cpp
+++ b/src/Unefunge93Strategy.cpp
@@ -252,7 +252,7 @@ FungeError Unefunge93Strategy::instructionCharOut(){
 
 FungeError Unefunge93Strategy::instructionNumOut(){
 	stack_t x = stack.top().pop();
-	std::cout << static_cast<int>(x) << ' ';
+	std::cout << x << ' ';
 	return ERROR_NONE;
 }
 
-- 
2.43.0


From aa00a03349eb646e3a2dca324186e7c844846e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 04/88] fix: ' and s truncated cells

---
 src/Unefunge98Strategy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index c1089c7..955e135 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -296,13 +296,13 @@ FungeError Unefunge98Strategy::instructionExecute(){
 
 FungeError Unefunge98Strategy::instructionFetch(){
 	ip.next();
-	stack.top().push((int)ip.get());
+	stack.top().push(ip.get());
 	return ERROR_NONE;
 }
 
 FungeError Unefunge98Strategy::instructionStore(){
 	ip.next();
-	ip.put((char)(int)stack.top().pop());
+	ip.put(stack.top().pop());
 	return ERROR_NONE;
 }
 
-- 
2.43.0


From d873e91211a4ab19818cec75f95f6be6f88d5201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 05/88] fix: k truncated its operand instruction and 0k did not
 skip it past spaces

---
 src/Unefunge98Strategy.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index 955e135..d3c11a2 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -113,7 +113,7 @@ FungeError Unefunge98Strategy::instructionAbsolute(){
 FungeError Unefunge98Strategy::instructionIterate(){
 	Vector v = ip.getPos();
 	ip.next();
-	char c = field.get(ip.getPos());
+	inst_t c = field.get(ip.getPos());
 	while(c == ' ' || c == ';'){
 		if(c == ';'){
 			do{
@@ -127,13 +127,14 @@ FungeError Unefunge98Strategy::instructionIterate(){
 			c = ip.get();
 		}
 	}
+	Vector found = ip.getPos();
 	ip.setPos(v);
 	int k = stack.top().pop();
 	for(int i = 0; i < k; i++){
 		runner.execute(c);
 	}
 	if(k == 0){
-		ip.next();
+		ip.setPos(found);
 	}
 	return ERROR_NONE;
 }
-- 
2.43.0


From f36a8afba1bc84f46a9262478590e8f4fe760304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 06/88] fix: k ignored the failure of the iterated instruction

---
 src/Unefunge98Strategy.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index d3c11a2..fe6d7f4 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -131,7 +131,10 @@ FungeError Unefunge98Strategy::instructionIterate(){
 	ip.setPos(v);
 	int k = stack.top().pop();
 	for(int i = 0; i < k; i++){
-		runner.execute(c);
+		FungeError err = runner.execute(c);
+		if(err != ERROR_NONE && err != ERROR_SKIP && err != ERROR_BLOCK){
+			ip.reflect();
+		}
 	}
 	if(k == 0){
 		ip.setPos(found);
-- 
2.43.0


From 1a0cda7c35bfa334b1e81dc2c2dbec6057258bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 07/88] fix: y truncated its argument

---
 src/Unefunge98Strategy.cpp       | 2 +-
 src/include/Unefunge98Strategy.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index fe6d7f4..c3026a5 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -357,7 +357,7 @@ FungeError Unefunge98Strategy::instructionUnload(){
 	return ret;
 }
 
-void Unefunge98Strategy::pushSysInfo(int num){
+void Unefunge98Strategy::pushSysInfo(stack_t num){
 	const size_t s = runner.getUniverse().dimensions();
 	const stack_t tsize = stack.top().size();
 	int pushes = 0;
diff --git a/src/include/Unefunge98Strategy.h b/src/include/Unefunge98Strategy.h
index 8c16f6f..d82e647 100644
--- a/src/include/Unefunge98Strategy.h
+++ b/src/include/Unefunge98Strategy.h
@@ -49,7 +49,7 @@ class Unefunge98Strategy : public FungeStrategy {
 		FungeError instructionLoad();
 		FungeError instructionUnload();
 
-		void pushSysInfo(int num);
+		void pushSysInfo(stack_t num);
 		FingerprintStrategy finger;
 };
 
-- 
2.43.0


From 61d0badb84677f1118c21f98e3826415cf13644a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 08/88] fix: y reported system() execution when execution is
 disabled

---
 src/Unefunge98Strategy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index c3026a5..ba1cfde 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -415,7 +415,7 @@ void Unefunge98Strategy::pushSysInfo(stack_t num){
 	// Path separator
 	pushes += stack.top().push('/');
 	// Operating Paradigm
-	pushes += stack.top().push(OP_SYSTEM);
+	pushes += stack.top().push(runner.getUniverse().allowExecute() ? OP_SYSTEM : OP_UNAVAILABLE);
 	// Version Number
 	pushes += stack.top().push(FUNGE_VERSION);
 	// Handprint
-- 
2.43.0


From 54cdcb59899eb299c23c92a010ea97af64bb8b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 09/88] fix: i pushed an origin that o would offset twice

---
 src/Unefunge98Strategy.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index ba1cfde..73256fe 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -247,10 +247,9 @@ FungeError Unefunge98Strategy::instructionFileIn(){
 		std::string filepath = popString(stack.top());
 		stack_t flags = stack.top().pop();
 		Vector va = popVector(runner);
-		va += ip.getStorage();
 		std::ifstream file(filepath);
 		if(!file.fail()){
-			Vector vb = field.parse(va, file, !!(flags & FILE_IN_BINARY));
+			Vector vb = field.parse(va+ip.getStorage(), file, !!(flags & FILE_IN_BINARY));
 			pushVector(runner, vb);
 			pushVector(runner, va);
 		}else{
-- 
2.43.0


From ff396dd1ccf4f874183b094047bff0b28899ff36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 10/88] fix: { and } overflowed the thread stack for large
 counts

---
 src/Unefunge98Strategy.cpp        | 14 ++++++++++----
 src/util/FungeUtilities.cpp       |  9 +++++++++
 src/util/include/FungeUtilities.h |  8 ++++++++
 3 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index 73256fe..4899429 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -187,11 +187,14 @@ FungeError Unefunge98Strategy::instructionUnder(){
 
 FungeError Unefunge98Strategy::instructionBegin(){
 	const stack_t n = stack.top().pop();
+	std::vector<stack_t> trans;
+	if(!reserve(trans, n)){
+		return ERROR_UNSPEC;
+	}
 	stack.push();
 	if(n > 0){
-		stack_t trans[n];
 		for(stack_t i = 0; i < n; ++i){
-			trans[i] = stack.second().pop();
+			trans.push_back(stack.second().pop());
 		}
 		for(stack_t i = n; i > 0; --i){
 			stack.top().push(trans[i-1]);
@@ -215,12 +218,15 @@ FungeError Unefunge98Strategy::instructionEnd(){
 	FungeError ret = ERROR_NONE;
 	if(stack.size() > 1){
 		const stack_t n = stack.top().pop();
+		std::vector<stack_t> trans;
+		if(!reserve(trans, n)){
+			return ERROR_UNSPEC;
+		}
 		Vector v = popVector(runner, &stack.second());
 		ip.setStorage(v);
 		if(n > 0){
-			stack_t trans[n];
 			for(stack_t i = 0; i < n; ++i){
-				trans[i] = stack.top().pop();
+				trans.push_back(stack.top().pop());
 			}
 			for(stack_t i = n; i > 0; --i){
 				stack.second().push(trans[i-1]);
diff --git a/src/util/FungeUtilities.cpp b/src/util/FungeUtilities.cpp
index 9b14794..6bbe68a 100644
--- a/src/util/FungeUtilities.cpp
+++ b/src/util/FungeUtilities.cpp
@@ -54,6 +54,15 @@ size_t pushString(Stack& stack, const std::string& str){
 	return s+1;
 }
 
+bool reserve(std::vector<stack_t>& cells, stack_t n){
+	try{
+		cells.reserve(n > 0 ? n : 0);
+	}catch(const std::exception&){
+		return false;
+	}
+	return true;
+}
+
 std::string popString(Stack& stack){
 	std::string ret;
 	for(stack_t c = stack.pop(); c != 0; c = stack.pop()){
diff --git a/src/util/include/FungeUtilities.h b/src/util/include/FungeUtilities.h
index 697a394..72eca07 100644
--- a/src/util/include/FungeUtilities.h
+++ b/src/util/include/FungeUtilities.h
@@ -52,4 +52,12 @@ size_t pushString(Stack& stack, const std::string& str);
  */
 std::string popString(Stack& stack);
 
+/**
+ * Make room for a number of cells given by a program.
+ * @param cells Vector to reserve memory in.
+ * @param n Number of cells, none if negative.
+ * @return false if there is not enough memory.
+ */
+bool reserve(std::vector<stack_t>& cells, stack_t n);
+
 }
-- 
2.43.0


From 7aec23870f85b6c660033c1bf3a2dde1cb3208e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:23 +0000
Subject: [PATCH 11/88] fix: the torus was one column and one row too large

---
 src/InstructionPointer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/InstructionPointer.cpp b/src/InstructionPointer.cpp
index 892c58d..de7fb2a 100644
--- a/src/InstructionPointer.cpp
+++ b/src/InstructionPointer.cpp
@@ -55,12 +55,12 @@ void InstructionPointer::next(){
 		pos += delta;
 		const Field& field = runner.getField();
 		if(runner.getUniverse().topology() == TOPO_TORUS){
-			if(pos.get(0) > 80){
+			if(pos.get(0) >= 80){
 				pos.set(0, 0);
 			}else if(pos.get(0) < 0){
 				pos.set(0, 79);
 			}
-			if(pos.get(1) > 25){
+			if(pos.get(1) >= 25){
 				pos.set(1, 0);
 			}else if(pos.get(1) < 0){
 				pos.set(1, 24);
-- 
2.43.0


From 7cf08d0147c6abdd21328db99b725781091aa9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:23 +0000
Subject: [PATCH 12/88] fix: an IP outside of the field could run off forever

---
 src/InstructionPointer.cpp       | 40 ++++++++++++++++++++++++++------
 src/include/InstructionPointer.h |  1 +
 2 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/InstructionPointer.cpp b/src/InstructionPointer.cpp
index de7fb2a..5932f0a 100644
--- a/src/InstructionPointer.cpp
+++ b/src/InstructionPointer.cpp
@@ -50,6 +50,38 @@ bool InstructionPointer::inField(const Field& field) const {
 	return true;
 }
 
+void InstructionPointer::wrap(const Field& field){
+	__extension__ typedef __int128 wide_t;
+	const wide_t limit = static_cast<wide_t>(1) << 100;
+	// Range of steps along the line that are inside the field
+	wide_t enter = -limit;
+	wide_t leave = limit;
+	for(size_t n = 0; n < runner.getUniverse().dimensions(); ++n){
+		const wide_t d = delta.get(n);
+		const wide_t min = static_cast<wide_t>(field.min(n)) - pos.get(n);
+		const wide_t max = static_cast<wide_t>(field.max(n)) - pos.get(n);
+		if(d == 0){
+			if(min > 0 || max < 0){
+				return;
+			}
+		}else{
+			const wide_t near = (d > 0) ? min : max;
+			const wide_t far = (d > 0) ? max : min;
+			// Round the quotients up and down
+			const wide_t first = near/d + ((near%d != 0 && (near > 0) == (d > 0)) ? 1 : 0);
+			const wide_t last = far/d - ((far%d != 0 && (far > 0) != (d > 0)) ? 1 : 0);
+			enter = std::max(enter, first);
+			leave = std::min(leave, last);
+		}
+	}
+	// Only wrap if the field is entirely behind the IP
+	if(enter <= leave && leave < 0){
+		for(size_t n = 0; n < runner.getUniverse().dimensions(); ++n){
+			pos.set(n, static_cast<dim_t>(pos.get(n) + enter*delta.get(n)));
+		}
+	}
+}
+
 void InstructionPointer::next(){
 	if(!stopped){
 		pos += delta;
@@ -67,13 +99,7 @@ void InstructionPointer::next(){
 			}
 		}else{
 			if(!inField(field)){
-				delta.reverse();
-				pos += delta;
-				while(inField(field)){
-					pos += delta;
-				}
-				delta.reverse();
-				pos += delta;
+				wrap(field);
 			}
 		}
 	}
diff --git a/src/include/InstructionPointer.h b/src/include/InstructionPointer.h
index c4c0d44..b4400d3 100644
--- a/src/include/InstructionPointer.h
+++ b/src/include/InstructionPointer.h
@@ -139,6 +139,7 @@ class InstructionPointer {
 		Vector storage;
 		
 		bool inField(const Field& field) const;
+		void wrap(const Field& field);
 };
 
 }
-- 
2.43.0


From 7fe7d60bd4d8e03a4817f73a41590960ed750e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:23 +0000
Subject: [PATCH 13/88] fix: a value stored in a char cell was not truncated
 before the blank test

---
 src/Field.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index c29e6ca..cd58e96 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -252,6 +252,9 @@ void Field::put(const Vector& p, inst_t v){
 	while(mins.size() < p.size()){
 		mins.push_back(0);
 	}
+	if(cellsize == CELL_CHAR){
+		v = static_cast<char>(v);
+	}
 	callObservers(p, v);
 	if(v == ' '){
 		auto find = field.find(p);
@@ -289,11 +292,7 @@ void Field::put(const Vector& p, inst_t v){
 				mins[i] = p[i];
 			}
 		}
-		if(cellsize == CELL_CHAR){
-			field[p] = static_cast<char>(v);
-		}else{
-			field[p] = v;
-		}
+		field[p] = v;
 	}
 }
 
-- 
2.43.0


From 2b72ed1f8505e873883e6ad6bd66904e6a394330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:23 +0000
Subject: [PATCH 14/88] fix: the bounding box ignored dimensions in which a
 cell is at zero

---
 src/Field.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index cd58e96..bdaed75 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -261,7 +261,7 @@ void Field::put(const Vector& p, inst_t v){
 		if(find != field.end()){
 			field.erase(find);
 		}
-		for(size_t i = 0; i < p.size(); ++i){
+		for(size_t i = 0; i < maxs.size() && !field.empty(); ++i){
 			if(maxs[i] == p[i]){
 				// scan for new max
 				dim_t max = std::numeric_limits<dim_t>::min() ;
@@ -284,7 +284,7 @@ void Field::put(const Vector& p, inst_t v){
 			}
 		}
 	}else{
-		for(size_t i = 0; i < p.size(); ++i){
+		for(size_t i = 0; i < maxs.size(); ++i){
 			if(maxs[i] < p[i]){
 				maxs[i] = p[i];
 			}
-- 
2.43.0


From 3156df31f7e23f1ad6cc6fb9fbcc1cafb7ce3b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:23 +0000
Subject: [PATCH 15/88] fix: a split reversed the order of the stacks on the
 stack stack

---
 src/StackStack.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/StackStack.cpp b/src/StackStack.cpp
index c0b3824..e80a537 100644
--- a/src/StackStack.cpp
+++ b/src/StackStack.cpp
@@ -26,8 +26,8 @@ StackStack::StackStack(const StackStack& orig) :
 	select(orig.select),
 	stack()
 {
-	for(size_t i = 0; i < orig.size(); ++i){
-		stack.push_back(new Stack(orig.at(i)));
+	for(size_t i = orig.size(); i > 0; --i){
+		stack.push_back(new Stack(orig.at(i-1)));
 	}
 }
 
-- 
2.43.0


From d3b6c9cf2f40bf30e648b8b53f94ae2e807c689e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:30 +0000
Subject: [PATCH 16/88] fix: a new stack on the stack stack ignored the mode in
 force

---
 src/StackStack.cpp       | 7 ++++++-
 src/include/StackStack.h | 1 +
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/StackStack.cpp b/src/StackStack.cpp
index e80a537..ed2fd93 100644
--- a/src/StackStack.cpp
+++ b/src/StackStack.cpp
@@ -10,6 +10,7 @@ namespace Funge {
 
 StackStack::StackStack() :
 	select(0),
+	mode(),
 	stack()
 {
 	stack.push_back(new Stack());
@@ -24,6 +25,7 @@ StackStack::~StackStack()
 
 StackStack::StackStack(const StackStack& orig) :
 	select(orig.select),
+	mode(orig.mode),
 	stack()
 {
 	for(size_t i = orig.size(); i > 0; --i){
@@ -63,12 +65,14 @@ void StackStack::pop(){
 
 void StackStack::push(){
 	stack.push_back(new Stack());
+	stack.back()->setMode(mode);
 }
 
 void StackStack::insert(size_t pos){
 	auto iter = stack.begin();
 	iter += stack.size()-pos-select;
-	stack.insert(iter, new Stack());
+	iter = stack.insert(iter, new Stack());
+	(*iter)->setMode(mode);
 }
 
 void StackStack::remove(size_t pos){
@@ -82,6 +86,7 @@ size_t StackStack::size() const{
 }
 
 void StackStack::setMode(FungeMode m){
+	mode = m;
 	for(auto s : stack){
 		s->setMode(m);
 	}
diff --git a/src/include/StackStack.h b/src/include/StackStack.h
index 67f783f..2bd50bd 100644
--- a/src/include/StackStack.h
+++ b/src/include/StackStack.h
@@ -139,6 +139,7 @@ class StackStack {
 		
 	private:
 		size_t select;
+		FungeMode mode;
 		std::vector<Stack*> stack;
 };
 
-- 
2.43.0


From f48a1c2fe6de3c42b09e984228afaf768de7769d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:30 +0000
Subject: [PATCH 17/88] fix: return from a *><> call removed the data stack
 instead of the return address

---
 src/StackStack.cpp       | 3 ++-
 src/StarfishStrategy.cpp | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/StackStack.cpp b/src/StackStack.cpp
index ed2fd93..51fe285 100644
--- a/src/StackStack.cpp
+++ b/src/StackStack.cpp
@@ -77,7 +77,8 @@ void StackStack::insert(size_t pos){
 
 void StackStack::remove(size_t pos){
 	auto iter = stack.begin();
-	iter += stack.size()-pos-select;
+	iter += stack.size()-pos-select-1;
+	delete *iter;
 	stack.erase(iter);
 }
 
diff --git a/src/StarfishStrategy.cpp b/src/StarfishStrategy.cpp
index 66b544a..d4ed405 100644
--- a/src/StarfishStrategy.cpp
+++ b/src/StarfishStrategy.cpp
@@ -64,6 +64,7 @@ FungeError StarfishStrategy::instructionCall(){
 }
 
 FungeError StarfishStrategy::instructionReturn(){
+	check_selected(selected+1);
 	check_stack(second, runner.getUniverse().dimensions());
 	Vector v = popVector(SECOND);
 	ip.setPos(v);
-- 
2.43.0


From dc6979bef30f4de6f11196cce199aa54a5dd5904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:30 +0000
Subject: [PATCH 18/88] fix: { } u and [ ] ignored the selected stack

---
 src/StackStack.cpp         | 14 ++++++++------
 src/Unefunge98Strategy.cpp |  4 ++--
 src/include/StackStack.h   |  6 ++++++
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/StackStack.cpp b/src/StackStack.cpp
index 51fe285..7d21aa0 100644
--- a/src/StackStack.cpp
+++ b/src/StackStack.cpp
@@ -19,7 +19,8 @@ StackStack::StackStack() :
 StackStack::~StackStack()
 {
 	while(stack.size() > 0){
-		pop();
+		delete stack.back();
+		stack.pop_back();
 	}
 }
 
@@ -58,14 +59,11 @@ const Stack& StackStack::at(size_t x) const{
 }
 
 void StackStack::pop(){
-	Stack* old = stack.back();
-	stack.pop_back();
-	delete old;
+	remove(0);
 }
 
 void StackStack::push(){
-	stack.push_back(new Stack());
-	stack.back()->setMode(mode);
+	insert(0);
 }
 
 void StackStack::insert(size_t pos){
@@ -93,6 +91,10 @@ void StackStack::setMode(FungeMode m){
 	}
 }
 
+bool StackStack::hasSecond() const{
+	return select+1 < stack.size();
+}
+
 FungeError StackStack::increment(){
 	if(select > 0){
 		--select;
diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index 4899429..16bf8f1 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -166,7 +166,7 @@ FungeError Unefunge98Strategy::instructionClear(){
 
 FungeError Unefunge98Strategy::instructionUnder(){
 	FungeError ret = ERROR_NONE;
-	if(stack.size() > 1){
+	if(stack.hasSecond()){
 		const stack_t n = stack.top().pop();
 		if(n > 0){
 			for(stack_t i = 0; i < n; ++i){
@@ -216,7 +216,7 @@ FungeError Unefunge98Strategy::instructionBegin(){
 
 FungeError Unefunge98Strategy::instructionEnd(){
 	FungeError ret = ERROR_NONE;
-	if(stack.size() > 1){
+	if(stack.hasSecond()){
 		const stack_t n = stack.top().pop();
 		std::vector<stack_t> trans;
 		if(!reserve(trans, n)){
diff --git a/src/include/StackStack.h b/src/include/StackStack.h
index 2bd50bd..a19944f 100644
--- a/src/include/StackStack.h
+++ b/src/include/StackStack.h
@@ -123,6 +123,12 @@ class StackStack {
 		 */
 		void setMode(FungeMode m);
 
+		/**
+		 * Check if there is a Stack beneath the selected Stack.
+		 * @return true if second() exists.
+		 */
+		bool hasSecond() const;
+
 		/**
 		 * Increment the selected stack.
 		 * @retval ERROR_NONE is stack exists.
-- 
2.43.0


From 5c4113e1d239fb7f457501feba72ae376a40eb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:30 +0000
Subject: [PATCH 19/88] fix: the ><> register lost its value and its fraction

---
 src/FishStrategy.cpp       | 1 +
 src/include/FishStrategy.h | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/FishStrategy.cpp b/src/FishStrategy.cpp
index 5035955..0553fed 100644
--- a/src/FishStrategy.cpp
+++ b/src/FishStrategy.cpp
@@ -438,6 +438,7 @@ FungeError FishStrategy::instructionRegister(){
 
 	FungeError ret = ERROR_UNSPEC;
 	if(top.set){
+		push(TOP, top.value);
 		top.value = 0;
 		top.set = false;
 		ret = ERROR_NONE;
diff --git a/src/include/FishStrategy.h b/src/include/FishStrategy.h
index 7654048..3c84ec3 100644
--- a/src/include/FishStrategy.h
+++ b/src/include/FishStrategy.h
@@ -93,7 +93,7 @@ class FishStrategy : public FungeStrategy {
 
 		struct reg {
 			bool set;
-			stack_t value;
+			double value;
 		};
 
 		std::stack<reg> regs;
-- 
2.43.0


From ea9d32d9303644e9aa67f4f37b0534bb8c0c0deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:30 +0000
Subject: [PATCH 20/88] fix: ><> { and } corrupted memory on an empty stack,
 and r on a large one

---
 src/FishStrategy.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/FishStrategy.cpp b/src/FishStrategy.cpp
index 0553fed..bda4cb4 100644
--- a/src/FishStrategy.cpp
+++ b/src/FishStrategy.cpp
@@ -314,7 +314,10 @@ FungeError FishStrategy::instructionLength(){
 FungeError FishStrategy::instructionShiftLeft(){
 	check_selected(selected);
 	stack_t len = stack.top().size();
-	double temp[len];
+	if(len == 0){
+		return ERROR_NONE;
+	}
+	std::vector<double> temp(len);
 	for(stack_t i = 0; i < len; ++i){
 		temp[i] = pop(TOP);
 	}
@@ -328,7 +331,10 @@ FungeError FishStrategy::instructionShiftLeft(){
 FungeError FishStrategy::instructionShiftRight(){
 	check_selected(selected);
 	stack_t len = stack.top().size();
-	double temp[len];
+	if(len == 0){
+		return ERROR_NONE;
+	}
+	std::vector<double> temp(len);
 	for(stack_t i = 0; i < len; ++i){
 		temp[i] = pop(TOP);
 	}
@@ -342,7 +348,7 @@ FungeError FishStrategy::instructionShiftRight(){
 FungeError FishStrategy::instructionReverse(){
 	check_selected(selected);
 	stack_t len = stack.top().size();
-	double temp[len];
+	std::vector<double> temp(len);
 	for(stack_t i = 0; i < len; ++i){
 		temp[i] = pop(TOP);
 	}
-- 
2.43.0


From c80de291d4233987702c159b9139d64ae516e976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:30 +0000
Subject: [PATCH 21/88] fix: ><> [ and ] reversed the values they move and
 assumed a second stack

---
 src/FishStrategy.cpp     | 17 +++++++++++++----
 src/StarfishStrategy.cpp |  4 +++-
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/FishStrategy.cpp b/src/FishStrategy.cpp
index bda4cb4..ff00734 100644
--- a/src/FishStrategy.cpp
+++ b/src/FishStrategy.cpp
@@ -364,18 +364,27 @@ FungeError FishStrategy::instructionCreateStack(){
 
 	stack.insert(selected);
 	check_stack(second, x);
+	std::vector<double> temp;
 	for(size_t i = 0; i < x; ++i){
-		push(TOP, pop(SECOND));
+		temp.push_back(pop(SECOND));
+	}
+	for(size_t i = x; i > 0; --i){
+		push(TOP, temp[i-1]);
 	}
 	regs.push({false, 0});
 	return ERROR_NONE;
 }
 
 FungeError FishStrategy::instructionRemoveStack(){
-	check_selected(selected);
-	check_selected(selected+1);
+	if(!stack.hasSecond()){
+		return ERROR_UNSPEC;
+	}
+	std::vector<double> temp;
 	while(stack.top().size() > 0){
-		push(SECOND, pop(TOP));
+		temp.push_back(pop(TOP));
+	}
+	for(size_t i = temp.size(); i > 0; --i){
+		push(SECOND, temp[i-1]);
 	}
 	stack.pop();
 	regs.pop();
diff --git a/src/StarfishStrategy.cpp b/src/StarfishStrategy.cpp
index d4ed405..dcd9a47 100644
--- a/src/StarfishStrategy.cpp
+++ b/src/StarfishStrategy.cpp
@@ -64,7 +64,9 @@ FungeError StarfishStrategy::instructionCall(){
 }
 
 FungeError StarfishStrategy::instructionReturn(){
-	check_selected(selected+1);
+	if(!stack.hasSecond()){
+		return ERROR_UNSPEC;
+	}
 	check_stack(second, runner.getUniverse().dimensions());
 	Vector v = popVector(SECOND);
 	ip.setPos(v);
-- 
2.43.0


From 640a321f1e5352f115251dc302a2460d37d98cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:30 +0000
Subject: [PATCH 22/88] fix: ><> % trapped on the most negative value

---
 src/FishStrategy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FishStrategy.cpp b/src/FishStrategy.cpp
index ff00734..66ec3c4 100644
--- a/src/FishStrategy.cpp
+++ b/src/FishStrategy.cpp
@@ -238,7 +238,7 @@ FungeError FishStrategy::instructionModu(){
 	if(x == 0){
 		return ERROR_UNSPEC;
 	}
-	push(TOP, y % x);
+	push(TOP, (x == -1) ? 0 : y % x);
 	return ERROR_NONE;
 }
 
-- 
2.43.0


From b9a49402503cbff91a4d7d2195e84768dbe53d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:11 +0000
Subject: [PATCH 23/88] fix: SGML strings classified cells beyond a byte as
 white space, or read outside of a table

---
 src/FungeStateString.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/FungeStateString.cpp b/src/FungeStateString.cpp
index 78cb7c0..f497140 100644
--- a/src/FungeStateString.cpp
+++ b/src/FungeStateString.cpp
@@ -18,6 +18,10 @@ FungeStateString::FungeStateString(FungeRunner& r) :
 	
 }
 
+static bool isBlank(inst_t i){
+	return i == ' ' || (i >= '\t' && i <= '\r');
+}
+
 void FungeStateString::escape(inst_t i){
 	stack_t code = i;
 	switch(i){
@@ -65,7 +69,7 @@ FungeError FungeStateString::execute(inst_t i){
 				runner.push(static_cast<stack_t>(i));
 				break;
 			case STRING_SGML:
-				if(!isspace(i) || !isspace(previous)){
+				if(!isBlank(i) || !isBlank(previous)){
 					runner.push(static_cast<stack_t>(i));
 					previous = i;
 				}else{
-- 
2.43.0


From 8cfa1fd20023d2f1fa91ba52015fe849828a51a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:35 +0000
Subject: [PATCH 24/88] fix: reading a directory with i never ended

---
 src/Field.cpp              | 2 +-
 src/Unefunge98Strategy.cpp | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index bdaed75..35722cd 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -53,7 +53,7 @@ Vector Field::parse(const Vector& start, std::istream& file, bool binary){
 	Vector v(start);
 	Vector max(start);
 	int last = 0;
-	for(int i = file.get(); !file.eof(); i = file.get()) {
+	for(int i = file.get(); file.good(); i = file.get()) {
 		size_t dims = dimensions;
 		if((i == '\n' || i == '\r') && !binary){
 			if(i == '\r'){
diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index 16bf8f1..89710db 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -254,6 +254,7 @@ FungeError Unefunge98Strategy::instructionFileIn(){
 		stack_t flags = stack.top().pop();
 		Vector va = popVector(runner);
 		std::ifstream file(filepath);
+		file.peek(); // a directory can be opened, but not read
 		if(!file.fail()){
 			Vector vb = field.parse(va+ip.getStorage(), file, !!(flags & FILE_IN_BINARY));
 			pushVector(runner, vb);
-- 
2.43.0


From 4f96d1e4ca9d2b747650c40ec754d180a367ea47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:35 +0000
Subject: [PATCH 25/88] fix: loading a directory did not fail

---
 src/Funge.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Funge.cpp b/src/Funge.cpp
index b290d81..64e8d9e 100644
--- a/src/Funge.cpp
+++ b/src/Funge.cpp
@@ -22,6 +22,7 @@ int createUniverse(const std::filesystem::path& filepath, FungeConfig& config);
 int parseFMV(const std::filesystem::path& filepath, FungeConfig& config){
 	std::string dir = filepath.parent_path();
 	std::ifstream stream(filepath);
+	stream.peek(); // a directory can be opened, but not read
 	if(stream.fail()){
 		std::cerr << "Failed to open " << filepath << std::endl;
 		return EIO;
@@ -90,6 +91,7 @@ int createUniverse(const std::filesystem::path& filepath, FungeConfig& config){
 	}
 	
 	std::ifstream stream(filepath);
+	stream.peek(); // a directory can be opened, but not read
 	if(stream.fail()){
 		std::cerr << "Failed to open " << filepath << std::endl;
 		return EIO;
-- 
2.43.0


From 24759cd9ce0375666f2bde89bd8a778b579f6ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:57 +0000
Subject: [PATCH 26/88] fix: creating a third universe of the same name never
 ended

---
 src/FungeMultiverse.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FungeMultiverse.cpp b/src/FungeMultiverse.cpp
index e240f2e..37ceab8 100644
--- a/src/FungeMultiverse.cpp
+++ b/src/FungeMultiverse.cpp
@@ -34,7 +34,7 @@ FungeUniverse* FungeMultiverse::create(std::istream& file, Field::FileFormat fmt
 	unsigned int a = 1;
 	std::string name(cfg.name);
 	while(universes.contains(cfg.name)){
-		cfg.name = name + "." + std::to_string(a);
+		cfg.name = name + "." + std::to_string(a++);
 	}
 	FungeUniverse* uni = new FungeUniverse(file, fmt, cfg);
 	uni->creator = creator;
@@ -50,7 +50,7 @@ FungeUniverse* FungeMultiverse::create(FungeConfig& cfg){
 	unsigned int a = 1;
 	std::string name(cfg.name);
 	while(universes.contains(cfg.name)){
-		cfg.name = name + "." + std::to_string(a);
+		cfg.name = name + "." + std::to_string(a++);
 	}
 	FungeUniverse* uni = new FungeUniverse(cfg);
 	universes[cfg.name] = uni;
-- 
2.43.0


From 577d0f62e00d8fdec9fb181454c129415ca5567e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:39 +0000
Subject: [PATCH 27/88] fix: base 64 had no digits for 52 and above and base 85
 repeated a digit

---
 src/fingerprint/FingerprintBASE.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fingerprint/FingerprintBASE.cpp b/src/fingerprint/FingerprintBASE.cpp
index f6f5b4a..1d09b07 100644
--- a/src/fingerprint/FingerprintBASE.cpp
+++ b/src/fingerprint/FingerprintBASE.cpp
@@ -38,7 +38,8 @@ const char FingerprintBASE::base64[64] = {
 	'A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I', 'J', 'K', 'L',
 	'M', 'N', 'O', 'P', 'Q', 'R', 'S', 'T', 'U', 'V', 'W', 'X', 'Y', 'Z',
 	'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n',
-	'o', 'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x', 'y', 'z', '+', '/'
+	'o', 'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x', 'y', 'z', '0', '1',
+	'2', '3', '4', '5', '6', '7', '8', '9', '+', '/'
 };
 
 // RFC 1924 base85
@@ -49,7 +50,7 @@ const char FingerprintBASE::base85[85] = {
 	'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm',
 	'n', 'o', 'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x', 'y', 'z',
 	'!', '#', '$', '%', '&', '(', ')', '*', '+', '-', ';', '<',
-	'=', '>', '?', '@', '^', '_', '`', '{', '|', '{', '~'
+	'=', '>', '?', '@', '^', '_', '`', '{', '|', '}', '~'
 };
 
 FingerprintBASE::FingerprintBASE(FungeRunner& r) :
-- 
2.43.0


From 18c729d4e3c783292376c6a0ab5ff1b2b396da45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:08 +0000
Subject: [PATCH 28/88] fix: printing a negative number in another base read
 outside of the digit table

---
 src/fingerprint/FingerprintBASE.cpp       | 11 +++++++----
 src/fingerprint/include/FingerprintBASE.h |  2 +-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/fingerprint/FingerprintBASE.cpp b/src/fingerprint/FingerprintBASE.cpp
index 1d09b07..052e747 100644
--- a/src/fingerprint/FingerprintBASE.cpp
+++ b/src/fingerprint/FingerprintBASE.cpp
@@ -97,7 +97,10 @@ FungeError FingerprintBASE::execute(inst_t cmd){
 
 void FingerprintBASE::printNum(stack_t num, unsigned int base) const{
 	if(base > 1){
-		printBase(num, base, true);
+		if(num < 0){
+			std::cout << '-';
+		}
+		printBase(num < 0 ? -static_cast<uint64_t>(num) : num, base, true);
 	}else{
 		for(stack_t i = 0; i < num; ++i){
 			std::cout << "0";
@@ -106,9 +109,9 @@ void FingerprintBASE::printNum(stack_t num, unsigned int base) const{
 	std::cout << " " << std::flush;
 }
 
-void FingerprintBASE::printBase(stack_t num, unsigned int base, bool low) const{
-	stack_t digit = num % base;
-	stack_t next = num / base;
+void FingerprintBASE::printBase(uint64_t num, unsigned int base, bool low) const{
+	uint64_t digit = num % base;
+	uint64_t next = num / base;
 	if(next > 0){
 		printBase(next, base, false);
 	}
diff --git a/src/fingerprint/include/FingerprintBASE.h b/src/fingerprint/include/FingerprintBASE.h
index a75c451..fa9093e 100644
--- a/src/fingerprint/include/FingerprintBASE.h
+++ b/src/fingerprint/include/FingerprintBASE.h
@@ -29,7 +29,7 @@ class FingerprintBASE : public Fingerprint {
 		std::map<unsigned int, const char*> base_map;
 		
 		void printNum(stack_t num, unsigned int base) const;
-		void printBase(stack_t num, unsigned int base, bool low) const;
+		void printBase(uint64_t num, unsigned int base, bool low) const;
 		stack_t readNum(unsigned int base) const;
 		bool readBase(std::string str, stack_t* num, unsigned int base) const;
 };
-- 
2.43.0


From f993fe60ce953bb08e9ed3da5bc34e553db8d16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:08 +0000
Subject: [PATCH 29/88] fix: reading a number in another base took a first
 lower case digit for none and a digit equal to the base for one

---
 src/fingerprint/FingerprintBASE.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fingerprint/FingerprintBASE.cpp b/src/fingerprint/FingerprintBASE.cpp
index 052e747..d984d3e 100644
--- a/src/fingerprint/FingerprintBASE.cpp
+++ b/src/fingerprint/FingerprintBASE.cpp
@@ -143,12 +143,12 @@ stack_t FingerprintBASE::readNum(unsigned int base) const{
 }
 
 bool FingerprintBASE::readBase(std::string str, stack_t* num, unsigned int base) const{
-	char digit = str[0];
-	bool found = false;
 	if(base <= 36){
 		std::transform(str.begin(), str.end(), str.begin(), ::toupper);
 	}
-	for(size_t i = 0; i <= base; ++i){
+	char digit = str[0];
+	bool found = false;
+	for(size_t i = 0; i < base; ++i){
 		if(digit_map[i] == digit){
 			*num = (*num*base) + i;
 			found = true;
-- 
2.43.0


From 6abafbadc14518aa540d5722504de662f99b395e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:08 +0000
Subject: [PATCH 30/88] fix: FISH L and R corrupted memory on an empty stack,
 and L, R and S on a large one

---
 src/fingerprint/FingerprintFISH.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/fingerprint/FingerprintFISH.cpp b/src/fingerprint/FingerprintFISH.cpp
index 5816128..eba912e 100644
--- a/src/fingerprint/FingerprintFISH.cpp
+++ b/src/fingerprint/FingerprintFISH.cpp
@@ -6,6 +6,7 @@
 
 #include "FingerprintFISH.h"
 #include "FungeUniverse.h"
+#include <vector>
 
 namespace Funge {
 
@@ -67,7 +68,10 @@ FungeError FingerprintFISH::execute(inst_t cmd){
 		// Shift Stack Left
 		case 'L':{
 			stack_t len = stack.top().size();
-			stack_t temp[len];
+			if(len == 0){
+				break;
+			}
+			std::vector<stack_t> temp(len);
 			for(stack_t i = 0; i < len; ++i){
 				temp[i] = stack.top().pop();
 			}
@@ -98,7 +102,10 @@ FungeError FingerprintFISH::execute(inst_t cmd){
 		// Shift Stack Left
 		case 'R':{
 			stack_t len = stack.top().size();
-			stack_t temp[len];
+			if(len == 0){
+				break;
+			}
+			std::vector<stack_t> temp(len);
 			for(stack_t i = 0; i < len; ++i){
 				temp[i] = stack.top().pop();
 			}
@@ -110,7 +117,7 @@ FungeError FingerprintFISH::execute(inst_t cmd){
 		// Reverse Stack
 		case 'S':{
 			stack_t len = stack.top().size();
-			stack_t temp[len];
+			std::vector<stack_t> temp(len);
 			for(stack_t i = 0; i < len; ++i){
 				temp[i] = stack.top().pop();
 			}
-- 
2.43.0


From 2d24bca95a2c1d5a79f134cc6a8a1632ed18fba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:08 +0000
Subject: [PATCH 31/88] fix: SUBR C and R overflowed the thread stack for a
 negative or large count

---
 src/fingerprint/FingerprintSUBR.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/fingerprint/FingerprintSUBR.cpp b/src/fingerprint/FingerprintSUBR.cpp
index c94ee4f..f20d08f 100644
--- a/src/fingerprint/FingerprintSUBR.cpp
+++ b/src/fingerprint/FingerprintSUBR.cpp
@@ -21,10 +21,13 @@ FungeError FingerprintSUBR::execute(inst_t cmd){
 		} break;
 		case 'C':{
 			stack_t n = stack.top().pop();
+			std::vector<stack_t> pops;
+			if(n < 0 || !reserve(pops, n)){
+				return ERROR_UNSPEC;
+			}
 			Vector va = popVector(runner);
-			stack_t pops[n];
 			for(stack_t i = 0; i < n; ++i){
-				pops[i] = stack.top().pop();
+				pops.push_back(stack.top().pop());
 			}
 			pushVector(runner, ip.getPos());
 			pushVector(runner, ip.getDelta());
@@ -50,9 +53,12 @@ FungeError FingerprintSUBR::execute(inst_t cmd){
 		} break;
 		case 'R':{
 			stack_t n = stack.top().pop();
-			stack_t pops[n];
+			std::vector<stack_t> pops;
+			if(n < 0 || !reserve(pops, n)){
+				return ERROR_UNSPEC;
+			}
 			for(stack_t i = 0; i < n; ++i){
-				pops[i] = stack.top().pop();
+				pops.push_back(stack.top().pop());
 			}
 			Vector vd = popVector(runner);
 			Vector va = popVector(runner);
-- 
2.43.0


From 31aa59736d1fcd451a9b76e44ce19e1541ae54c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:28 +0000
Subject: [PATCH 32/88] fix: FRTH L and the roll of a funge-lib overflowed the
 thread stack for large counts

---
 src/fingerprint/FingerprintDynamic.cpp | 8 ++++++--
 src/fingerprint/FingerprintFRTH.cpp    | 9 +++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/fingerprint/FingerprintDynamic.cpp b/src/fingerprint/FingerprintDynamic.cpp
index 41138b7..9978b35 100644
--- a/src/fingerprint/FingerprintDynamic.cpp
+++ b/src/fingerprint/FingerprintDynamic.cpp
@@ -69,9 +69,13 @@ FungeError FingerprintDynamic::execute(inst_t cmd){
 				if(u < 0){
 					count = -u;
 				}
-				stack_t pops[count+1];
+				std::vector<stack_t> pops;
+				if(count < 0 || !reserve(pops, count)){
+					ret = ERROR_UNSPEC;
+					break;
+				}
 				for(stack_t i = 0; i <= count; ++i){
-					pops[i] = stack.top().pop();
+					pops.push_back(stack.top().pop());
 				}
 				if(u < 0){
 					stack.top().push(pops[0]);
diff --git a/src/fingerprint/FingerprintFRTH.cpp b/src/fingerprint/FingerprintFRTH.cpp
index 6555983..5a3b12f 100644
--- a/src/fingerprint/FingerprintFRTH.cpp
+++ b/src/fingerprint/FingerprintFRTH.cpp
@@ -5,6 +5,7 @@
  */
 
 #include "FingerprintFRTH.h"
+#include "FungeUtilities.h"
 
 namespace Funge {
 
@@ -25,9 +26,13 @@ FungeError FingerprintFRTH::execute(inst_t cmd){
 			if(u < 0){
 				count = -u;
 			}
-			stack_t pops[count+1];
+			std::vector<stack_t> pops;
+			if(count < 0 || !reserve(pops, count)){
+				ret = ERROR_UNSPEC;
+				break;
+			}
 			for(stack_t i = 0; i <= count; ++i){
-				pops[i] = stack.top().pop();
+				pops.push_back(stack.top().pop());
 			}
 			if(u < 0){
 				stack.top().push(pops[0]);
-- 
2.43.0


From 438b1be94859edb16f437895c99290591bb121c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:28 +0000
Subject: [PATCH 33/88] fix: NFUN X, Y and Z left out the dimension they move
 along, and crashed for a negative one

---
 src/fingerprint/FingerprintNFUN.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/fingerprint/FingerprintNFUN.cpp b/src/fingerprint/FingerprintNFUN.cpp
index fcd6428..f0b9e51 100644
--- a/src/fingerprint/FingerprintNFUN.cpp
+++ b/src/fingerprint/FingerprintNFUN.cpp
@@ -75,6 +75,9 @@ FungeError FingerprintNFUN::execute(inst_t cmd){
 		} break;
 		case 'X':{
 			stack_t n = stack.top().pop();
+			if(n < 0){
+				return ERROR_UNSPEC;
+			}
 			Vector v;
 			if(stack.top().pop() == 0){
 				v.set(n, 1);
@@ -82,21 +85,27 @@ FungeError FingerprintNFUN::execute(inst_t cmd){
 				v.set(n, -1);
 			}
 			ip.setDelta(v);
-			dim = n;
+			dim = n + 1;
 		} break;
 		case 'Y':{
 			stack_t n = stack.top().pop();
+			if(n < 0){
+				return ERROR_UNSPEC;
+			}
 			Vector v;
 			v.set(n, -1);
 			ip.setDelta(v);
-			dim = n;
+			dim = n + 1;
 		} break;
 		case 'Z':{
 			stack_t n = stack.top().pop();
+			if(n < 0){
+				return ERROR_UNSPEC;
+			}
 			Vector v;
 			v.set(n, 1);
 			ip.setDelta(v);
-			dim = n;
+			dim = n + 1;
 		} break;
 		default:
 			return ERROR_UNIMP;
-- 
2.43.0


From afa74ffe1f736cb108186cd0c891ccb80a4fe191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:28 +0000
Subject: [PATCH 34/88] fix: TOYS T crashed for a dimension that does not exist

---
 src/fingerprint/FingerprintTOYS.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/fingerprint/FingerprintTOYS.cpp b/src/fingerprint/FingerprintTOYS.cpp
index 29e7e69..4008cbc 100644
--- a/src/fingerprint/FingerprintTOYS.cpp
+++ b/src/fingerprint/FingerprintTOYS.cpp
@@ -161,13 +161,10 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 		} break;
 		case 'T':{
 			size_t n = static_cast<size_t>(stack.top().pop());
-			Vector v;
-			if(stack.top().pop() == 0){
-				v.set(n, 1);
-			}else{
-				v.set(n, -1);
-			}
+			stack_t b = stack.top().pop();
 			if(runner.getUniverse().dimensions() > n){
+				Vector v;
+				v.set(n, b == 0 ? 1 : -1);
 				ip.setDelta(v);
 			}else{
 				ret = ERROR_UNSPEC;
-- 
2.43.0


From a31aef233d82322a68adeb6d6f6c7412046b9538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:28 +0000
Subject: [PATCH 35/88] fix: STRN V ended the interpreter for a malformed or
 large number

---
 src/fingerprint/FingerprintSTRN.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fingerprint/FingerprintSTRN.cpp b/src/fingerprint/FingerprintSTRN.cpp
index 22d6042..d99bf94 100644
--- a/src/fingerprint/FingerprintSTRN.cpp
+++ b/src/fingerprint/FingerprintSTRN.cpp
@@ -110,7 +110,11 @@ FungeError FingerprintSTRN::execute(inst_t cmd){
 		} break;
 		case 'V':{
 			std::string str = popString(stack.top());
-			stack.top().push(std::stoi(str));
+			try{
+				stack.top().push(std::stoll(str));
+			}catch(const std::exception&){
+				ret = ERROR_UNSPEC;
+			}
 		} break;
 		default:
 			ret = ERROR_UNIMP;
-- 
2.43.0


From 38e0ff17996eb65814fe139f85d9d0f406420bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:28 +0000
Subject: [PATCH 36/88] fix: FPSP R and FPDP R ended the interpreter for a
 malformed number

---
 src/fingerprint/include/FingerprintFloat.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fingerprint/include/FingerprintFloat.h b/src/fingerprint/include/FingerprintFloat.h
index 4f834ab..3512921 100644
--- a/src/fingerprint/include/FingerprintFloat.h
+++ b/src/fingerprint/include/FingerprintFloat.h
@@ -102,7 +102,12 @@ class FingerprintFloat : public Fingerprint {
 				} break;
 				case 'R':{
 					std::string s = popString(stack.top());
-					double d = std::stod(s);
+					double d;
+					try{
+						d = std::stod(s);
+					}catch(const std::exception&){
+						return ERROR_UNSPEC;
+					}
 					T n = static_cast<T>(d);
 					stack.top().push(TToStack(n));
 				} break;
-- 
2.43.0


From 3ad7d9a2284b42992007b0c899cac50a88d71d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:28 +0000
Subject: [PATCH 37/88] fix: FPSP pushed whatever lay beside the number in
 memory

---
 src/fingerprint/include/FingerprintFloat.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fingerprint/include/FingerprintFloat.h b/src/fingerprint/include/FingerprintFloat.h
index 3512921..c154b6f 100644
--- a/src/fingerprint/include/FingerprintFloat.h
+++ b/src/fingerprint/include/FingerprintFloat.h
@@ -8,6 +8,8 @@
 
 #include "Fingerprint.h"
 #include "FungeUtilities.h"
+#include <cmath>
+#include <cstring>
 #include <iomanip>
 
 namespace Funge {
@@ -146,11 +148,15 @@ class FingerprintFloat : public Fingerprint {
 
 	private:
 		T stackToT(stack_t n){
-			return *reinterpret_cast<T*>(&n);
+			T v;
+			std::memcpy(&v, &n, sizeof(v));
+			return v;
 		}
 
 		stack_t TToStack(T n){
-			return *reinterpret_cast<stack_t*>(&n);
+			stack_t v = 0;
+			std::memcpy(&v, &n, sizeof(n));
+			return v;
 		}
 };
 
-- 
2.43.0


From 130220a5f2107faa9276fad506441a788d08ee7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:20 +0000
Subject: [PATCH 38/88] fix: IIPC A crashed for the first IP and read a parent
 that had ended

---
 src/FungeRunner.cpp                 | 8 ++++----
 src/fingerprint/FingerprintIIPC.cpp | 6 +++++-
 src/include/FungeRunner.h           | 5 +++--
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/FungeRunner.cpp b/src/FungeRunner.cpp
index f5b9743..9c389ee 100644
--- a/src/FungeRunner.cpp
+++ b/src/FungeRunner.cpp
@@ -24,7 +24,7 @@ FungeRunner::FungeRunner(FungeUniverse& uni, const Vector& pos, const Vector& de
 	universe(&uni),
 	stack(new StackStack()),
 	ip(*this),
-	parent(nullptr),
+	parent(),
 	errorHandler(nullptr),
 	strategies(),
 	normalState(*this),
@@ -42,7 +42,7 @@ FungeRunner::FungeRunner(FungeUniverse& uni, const Vector& pos, const Vector& de
 	universe(&uni),
 	stack(r.stack),
 	ip(*this),
-	parent(&r),
+	parent(r.id),
 	errorHandler(nullptr),
 	strategies(),
 	normalState(*this),
@@ -60,7 +60,7 @@ FungeRunner::FungeRunner(const FungeRunner& runner) :
 	universe(runner.universe),
 	stack(new StackStack(*runner.stack)),
 	ip(runner.ip, *this),
-	parent(&runner),
+	parent(runner.id),
 	errorHandler(nullptr),
 	normalState(*this),
 	stringState(*this),
@@ -244,7 +244,7 @@ void FungeRunner::setUniverse(FungeUniverse& other){
 	universe = &other;
 }
 
-const FungeRunner* FungeRunner::getParent(){
+std::optional<size_t> FungeRunner::getParentID() const{
 	return parent;
 }
 
diff --git a/src/fingerprint/FingerprintIIPC.cpp b/src/fingerprint/FingerprintIIPC.cpp
index b03310e..f1bed6d 100644
--- a/src/fingerprint/FingerprintIIPC.cpp
+++ b/src/fingerprint/FingerprintIIPC.cpp
@@ -19,7 +19,11 @@ FungeError FingerprintIIPC::execute(inst_t cmd){
 	FungeError ret = ERROR_NONE;
 	switch(cmd){
 		case 'A':
-			stack.top().push(runner.getParent()->getID());
+			if(runner.getParentID()){
+				stack.top().push(*runner.getParentID());
+			}else{
+				ret = ERROR_UNSPEC;
+			}
 			break;
 		case 'D':{
 			size_t age = stack.top().age();
diff --git a/src/include/FungeRunner.h b/src/include/FungeRunner.h
index d71aa65..bf3f646 100644
--- a/src/include/FungeRunner.h
+++ b/src/include/FungeRunner.h
@@ -13,6 +13,7 @@
 #include "FungeStateString.h"
 #include "FungeConfig.h"
 #include <memory>
+#include <optional>
 
 namespace Funge {
 class FungeUniverse;
@@ -54,7 +55,7 @@ class FungeRunner {
 		void setErrorHandler(std::function<FungeError(FungeError)> func);
 
 		void shareStack(FungeRunner& other);
-		const FungeRunner* getParent();
+		std::optional<size_t> getParentID() const;
 	
 	private:
 		static size_t count;
@@ -63,7 +64,7 @@ class FungeRunner {
 		FungeUniverse* universe;
 		std::shared_ptr<StackStack> stack;
 		InstructionPointer ip;
-		const FungeRunner* parent;
+		std::optional<size_t> parent;
 		std::function<FungeError(FungeError)> errorHandler;
 		std::vector<FungeStrategy*> strategies;
 		
-- 
2.43.0


From 6edb5360416597c380f6ab2ef25c1ba0eebe6b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:20 +0000
Subject: [PATCH 39/88] fix: DIRF changed the file system when access to it is
 disabled

---
 src/fingerprint/FingerprintDIRF.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fingerprint/FingerprintDIRF.cpp b/src/fingerprint/FingerprintDIRF.cpp
index 85c99dd..febe036 100644
--- a/src/fingerprint/FingerprintDIRF.cpp
+++ b/src/fingerprint/FingerprintDIRF.cpp
@@ -6,6 +6,7 @@
 
 #include "FingerprintDIRF.h"
 #include "FungeUtilities.h"
+#include "FungeUniverse.h"
 #include<filesystem>
 
 namespace Funge {
@@ -16,6 +17,9 @@ FingerprintDIRF::FingerprintDIRF(FungeRunner& r) :
 
 FungeError FingerprintDIRF::execute(inst_t cmd){
 	FungeError ret = ERROR_NONE;
+	if(!runner.getUniverse().allowFilesystem()){
+		return ERROR_NOTAVAIL;
+	}
 	switch(cmd){
 		case 'C':{
 			std::filesystem::path dir = popString(runner.getStack().top());
-- 
2.43.0


From 8ebd6a5bb94cdd105f1997af3063655512d3fb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:20 +0000
Subject: [PATCH 40/88] fix: a failing DIRF instruction ended the interpreter

---
 src/fingerprint/FingerprintDIRF.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/fingerprint/FingerprintDIRF.cpp b/src/fingerprint/FingerprintDIRF.cpp
index febe036..301968d 100644
--- a/src/fingerprint/FingerprintDIRF.cpp
+++ b/src/fingerprint/FingerprintDIRF.cpp
@@ -17,26 +17,36 @@ FingerprintDIRF::FingerprintDIRF(FungeRunner& r) :
 
 FungeError FingerprintDIRF::execute(inst_t cmd){
 	FungeError ret = ERROR_NONE;
+	std::error_code err;
 	if(!runner.getUniverse().allowFilesystem()){
 		return ERROR_NOTAVAIL;
 	}
 	switch(cmd){
 		case 'C':{
 			std::filesystem::path dir = popString(runner.getStack().top());
-			if(std::filesystem::exists(dir) && std::filesystem::is_directory(dir)){
-				std::filesystem::current_path(dir);
+			if(std::filesystem::is_directory(dir, err)){
+				std::filesystem::current_path(dir, err);
+				if(err){
+					ret = ERROR_UNSPEC;
+				}
 			}else{
 				ret = ERROR_UNSPEC;
 			}
 		} break;
 		case 'M':{
 			std::filesystem::path dir = popString(runner.getStack().top());
-			std::filesystem::create_directory(dir);
+			std::filesystem::create_directory(dir, err);
+			if(err){
+				ret = ERROR_UNSPEC;
+			}
 		} break;
 		case 'R':{
 			std::filesystem::path dir = popString(runner.getStack().top());
-			if(std::filesystem::exists(dir) && std::filesystem::is_directory(dir)){
-				std::filesystem::remove(dir);
+			if(std::filesystem::is_directory(dir, err)){
+				std::filesystem::remove(dir, err);
+				if(err){
+					ret = ERROR_UNSPEC;
+				}
 			}else{
 				ret = ERROR_UNSPEC;
 			}
-- 
2.43.0


From c89e6aac21475d2b2cc10264ef940aafee321e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:33 +0000
Subject: [PATCH 41/88] fix: DBUG defined no instructions

---
 src/fingerprint/FingerprintDBUG.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fingerprint/FingerprintDBUG.cpp b/src/fingerprint/FingerprintDBUG.cpp
index 5fb2421..a3ef965 100644
--- a/src/fingerprint/FingerprintDBUG.cpp
+++ b/src/fingerprint/FingerprintDBUG.cpp
@@ -17,6 +17,7 @@ FingerprintDBUG::FingerprintDBUG(FungeRunner& r) :
 
 void FingerprintDBUG::activate(){
 	dbg = &runner.getUniverse().getDebugger();
+	Fingerprint::activate();
 }
 
 FungeError FingerprintDBUG::execute(inst_t cmd){
-- 
2.43.0


From bf6416f32d2807a35d25e0e4db6db4286839ed8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:44 +0000
Subject: [PATCH 42/88] fix: FPRT crashed for a format that does not fit the
 value and printed only the low 32 bits of integers

---
 src/fingerprint/FingerprintFPRT.cpp | 53 +++++++++++++++++++++++++++--
 1 file changed, 51 insertions(+), 2 deletions(-)

diff --git a/src/fingerprint/FingerprintFPRT.cpp b/src/fingerprint/FingerprintFPRT.cpp
index 892a258..ab2db35 100644
--- a/src/fingerprint/FingerprintFPRT.cpp
+++ b/src/fingerprint/FingerprintFPRT.cpp
@@ -6,9 +6,36 @@
 
 #include "FingerprintFPRT.h"
 #include "FungeUtilities.h"
+#include <cstring>
 
 namespace Funge {
 
+/**
+ * Check that a format converts exactly one value, and set the length of that value.
+ * @param fmt Format string.
+ * @param kinds Allowed conversions.
+ * @param length Length modifier of the value.
+ * @return Whether the format may be used.
+ */
+static bool prepareFormat(std::string& fmt, const char* kinds, const std::string& length){
+	size_t conversions = 0;
+	for(size_t i = fmt.find('%'); i != std::string::npos; i = fmt.find('%', i+1)){
+		if(fmt[i+1] == '%'){
+			++i;
+			continue;
+		}
+		i = fmt.find_first_not_of("-+ #0123456789.", i+1);
+		size_t type = fmt.find_first_not_of("hlLqjzt", i);
+		if(type == std::string::npos || strchr(kinds, fmt[type]) == nullptr || ++conversions > 1){
+			return false;
+		}
+		const std::string modifier = fmt[type] == 'c' ? "" : length;
+		fmt.replace(i, type-i, modifier);
+		i += modifier.size();
+	}
+	return true;
+}
+
 FingerprintFPRT::FingerprintFPRT(FungeRunner& r) :
 	Fingerprint(r, {'D', 'F', 'I', 'L', 'S'})
 {}
@@ -19,7 +46,12 @@ FungeError FingerprintFPRT::execute(inst_t cmd){
 		case 'D':{
 			stack_t n = stack.top().pop();
 			std::string fmt = popString(stack.top());
-			double f = *reinterpret_cast<double*>(&n);
+			double f;
+			memcpy(&f, &n, sizeof(f));
+			if(!prepareFormat(fmt, "aAeEfFgG", "")){
+				ret = ERROR_UNSPEC;
+				break;
+			}
 			char str[1024];
 			int cnt = snprintf(str, sizeof(str), fmt.c_str(), f);
 			if(cnt < 0){
@@ -31,7 +63,12 @@ FungeError FingerprintFPRT::execute(inst_t cmd){
 		case 'F':{
 			stack_t n = stack.top().pop();
 			std::string fmt = popString(stack.top());
-			double f = *reinterpret_cast<float*>(&n);
+			float f;
+			memcpy(&f, &n, sizeof(f));
+			if(!prepareFormat(fmt, "aAeEfFgG", "")){
+				ret = ERROR_UNSPEC;
+				break;
+			}
 			char str[1024];
 			int cnt = snprintf(str, sizeof(str), fmt.c_str(), f);
 			if(cnt < 0){
@@ -43,6 +80,10 @@ FungeError FingerprintFPRT::execute(inst_t cmd){
 		case 'I':{
 			stack_t i = stack.top().pop();
 			std::string fmt = popString(stack.top());
+			if(!prepareFormat(fmt, "cdiouxX", "ll")){
+				ret = ERROR_UNSPEC;
+				break;
+			}
 			char str[1024];
 			int cnt = snprintf(str, sizeof(str), fmt.c_str(), i);
 			if(cnt < 0){
@@ -56,6 +97,10 @@ FungeError FingerprintFPRT::execute(inst_t cmd){
 			stack_t h = stack.top().pop();
 			std::string fmt = popString(stack.top());
 			stack_t n = (h << 32) | (l & 0xFFFFFFFF);
+			if(!prepareFormat(fmt, "cdiouxX", "ll")){
+				ret = ERROR_UNSPEC;
+				break;
+			}
 			char str[1024];
 			int cnt = snprintf(str, sizeof(str), fmt.c_str(), n);
 			if(cnt < 0){
@@ -67,6 +112,10 @@ FungeError FingerprintFPRT::execute(inst_t cmd){
 		case 'S':{
 			std::string s = popString(stack.top());
 			std::string fmt = popString(stack.top());
+			if(!prepareFormat(fmt, "s", "")){
+				ret = ERROR_UNSPEC;
+				break;
+			}
 			char str[1024];
 			int cnt = snprintf(str, sizeof(str), fmt.c_str(), s.c_str());
 			if(cnt < 0){
-- 
2.43.0


From 491b52737b6280a8ecec978afdc5d46390f383e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:44 +0000
Subject: [PATCH 43/88] fix: FIXP D gave wrong or endless results for negative
 and large limits

---
 src/fingerprint/FingerprintFIXP.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fingerprint/FingerprintFIXP.cpp b/src/fingerprint/FingerprintFIXP.cpp
index e26854c..fb4ff24 100644
--- a/src/fingerprint/FingerprintFIXP.cpp
+++ b/src/fingerprint/FingerprintFIXP.cpp
@@ -5,6 +5,7 @@
  */
 
 #include "FingerprintFIXP.h"
+#include <algorithm>
 #include <cmath>
 
 namespace Funge {
@@ -126,7 +127,7 @@ double FingerprintFIXP::radToDeg(double deg){
 }
 
 stack_t FingerprintFIXP::random(stack_t max){
-	std::uniform_int_distribution<> dis(0, max);
+	std::uniform_int_distribution<stack_t> dis(std::min<stack_t>(0, max), std::max<stack_t>(0, max));
 	return dis(gen);
 }
 
-- 
2.43.0


From 1542c5401a49e7a772ce4eeaa569fcb406a6ad32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:56 +0000
Subject: [PATCH 44/88] fix: STRN G never ended for a string without an end

---
 src/fingerprint/FingerprintSTRN.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fingerprint/FingerprintSTRN.cpp b/src/fingerprint/FingerprintSTRN.cpp
index d99bf94..19f9c07 100644
--- a/src/fingerprint/FingerprintSTRN.cpp
+++ b/src/fingerprint/FingerprintSTRN.cpp
@@ -44,9 +44,13 @@ FungeError FingerprintSTRN::execute(inst_t cmd){
 			Vector va = popVector(runner);
 			va += ip.getStorage();
 			std::string str;
-			for( ; field.get(va); va += Vector{1}){
+			for( ; field.get(va) && va.get(0) <= field.max(0); va += Vector{1}){
 				str += field.get(va);
 			}
+			if(field.get(va)){
+				ret = ERROR_UNSPEC;
+				break;
+			}
 			pushString(stack.top(), str);
 		} break;
 		case 'I':{
-- 
2.43.0


From 3f12969d6c741b88f87612f162ee90212bfe5293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:28 +0000
Subject: [PATCH 45/88] fix: disabled capabilities were enabled again in
 funge-libs and created universes

---
 src/fingerprint/FingerprintFungeLib.cpp | 4 ++++
 src/fingerprint/FingerprintMVRS.cpp     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/fingerprint/FingerprintFungeLib.cpp b/src/fingerprint/FingerprintFungeLib.cpp
index 4e6384f..86594da 100644
--- a/src/fingerprint/FingerprintFungeLib.cpp
+++ b/src/fingerprint/FingerprintFungeLib.cpp
@@ -39,6 +39,10 @@ FingerprintFungeLib* FingerprintFungeLib::factory(FungeRunner& r, const std::str
 		FungeConfig config;
 		config.name = std::filesystem::canonical(fl);
 		config.standard = FUNGE_98;
+		config.concurrent = r.getUniverse().allowConcurrent();
+		config.execute = r.getUniverse().allowExecute();
+		config.filesystem = r.getUniverse().allowFilesystem();
+		config.fingerprint = r.getUniverse().allowFingerprints();
 		if(r.isMode(FUNGE_MODE_DEBUG)){
 			config.mode |= FUNGE_MODE_DEBUG;
 		}
diff --git a/src/fingerprint/FingerprintMVRS.cpp b/src/fingerprint/FingerprintMVRS.cpp
index 4b44a70..e4c5b4f 100644
--- a/src/fingerprint/FingerprintMVRS.cpp
+++ b/src/fingerprint/FingerprintMVRS.cpp
@@ -55,6 +55,10 @@ FungeError FingerprintMVRS::execute(inst_t cmd){
 				config.dimensions = dim;
 				config.standard = stand;
 				config.mode = flgs;
+				config.concurrent = universe.allowConcurrent();
+				config.execute = universe.allowExecute();
+				config.filesystem = universe.allowFilesystem();
+				config.fingerprint = universe.allowFingerprints();
 				multi.create(config);
 			}
 		} break;
-- 
2.43.0


From 2a8bf2d0cf24b1103b55539fff2df894815e2077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:30 +0000
Subject: [PATCH 46/88] fix: NFUN does not define the instruction B

---
 src/fingerprint/FingerprintNFUN.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fingerprint/FingerprintNFUN.cpp b/src/fingerprint/FingerprintNFUN.cpp
index f0b9e51..e8352b5 100644
--- a/src/fingerprint/FingerprintNFUN.cpp
+++ b/src/fingerprint/FingerprintNFUN.cpp
@@ -11,7 +11,7 @@ namespace Funge {
 
 FingerprintNFUN::FingerprintNFUN(FungeRunner& r) :
 	Fingerprint(r,
-			{'A', 'B', 'C', 'D', 'H', 'I', 'L', 'M', 'R', 'V', 'X', 'Y', 'Z'})
+			{'A', 'C', 'D', 'H', 'I', 'L', 'M', 'R', 'V', 'X', 'Y', 'Z'})
 {}
 
 FungeError FingerprintNFUN::execute(inst_t cmd){
-- 
2.43.0


From 415d5a8d2e75604c7409678b29d2f12b205e38d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:08 +0000
Subject: [PATCH 47/88] fix: TERM moves the cursor although asked for no lines

---
 fing/TERM.fl | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/fing/TERM.fl b/fing/TERM.fl
index 7ea21bc..abe42a4 100644
--- a/fing/TERM.fl
+++ b/fing/TERM.fl
@@ -1,8 +1,9 @@
 =C
 0"J2["39*>:#,_$@
 =D
-0\:0`#v_'A\01-*>:a%'0+\a/:#v_$"["39*>:#,_$@
-      >'B\     ^           <
+:#v_$@
+  >0\:0`#v_'A\01-*>:a%'0+\a/:#v_$"["39*>:#,_$@
+         >'B\     ^           <
 =G
 0\';\1+>:a%'0+\a/:#v_$'[39*>:#,_$0\'H\1+>:a%'0+\a/:#v_$>:#,_$@
        ^           <                    ^           <
@@ -13,5 +14,6 @@
 =S
 0"J0["39*>:#,_$@
 =U
-0\:0`#v_'B\01-*>:a%'0+\a/:#v_$"["39*>:#,_$@
-      >'A\     ^           <
\ No newline at end of file
+:#v_$@
+  >0\:0`#v_'B\01-*>:a%'0+\a/:#v_$"["39*>:#,_$@
+         >'A\     ^           <
\ No newline at end of file
-- 
2.43.0


From 0db1a967f7c33c2c2289ed06eb2660fbd61d60dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:52 +0000
Subject: [PATCH 48/88] fix: an empty option value crashed the interpreter

---
 src/Funge.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/Funge.cpp b/src/Funge.cpp
index 64e8d9e..37f5c62 100644
--- a/src/Funge.cpp
+++ b/src/Funge.cpp
@@ -111,8 +111,7 @@ int fungemain(int argc, char **argv, char **envp){
 		if(argv[a][0] != '-'){
 			break;
 		}else if(strncmp(argv[a], "-std=", 5) == 0){
-			std::strtok(argv[a], "=");
-			char* arg = std::strtok(NULL, "=");
+			const char* arg = &argv[a][5];
 			if(strcmp(arg, "une93") == 0){
 				funge_config.dimensions = 1;
 				funge_config.standard = Funge::FUNGE_93;
@@ -167,8 +166,7 @@ int fungemain(int argc, char **argv, char **envp){
 		}else if(strcmp(argv[a], "-finvert-hl") == 0){
 			funge_config.inverthl = true;
 		}else if(strncmp(argv[a], "-ftopo=", 7) == 0){
-			std::strtok(argv[a], "=");
-			char* arg = strtok(NULL, "=");
+			const char* arg = &argv[a][7];
 			if(strcmp(arg, "torus") == 0){
 				funge_config.topo = TOPO_TORUS;
 			}else if(strcmp(arg, "lahey") == 0){
@@ -178,8 +176,7 @@ int fungemain(int argc, char **argv, char **envp){
 				return EINVAL;
 			}
 		}else if(strncmp(argv[a], "-fstrings=", 10) == 0){
-			std::strtok(argv[a], "=");
-			char* arg = std::strtok(NULL, "=");
+			const char* arg = &argv[a][10];
 			if(strcmp(arg, "multispace") == 0){
 				funge_config.strings = STRING_MULTISPACE;
 			}else if(strcmp(arg, "sgml") == 0){
@@ -191,8 +188,7 @@ int fungemain(int argc, char **argv, char **envp){
 				return EINVAL;
 			}
 		}else if(strncmp(argv[a], "-fcells=", 8) == 0){
-			std::strtok(argv[a], "=");
-			char* arg = std::strtok(NULL, "=");
+			const char* arg = &argv[a][8];
 			if(strcmp(arg, "char") == 0){
 				funge_config.cells = CELL_CHAR;
 			}else if(strcmp(arg, "int") == 0){
@@ -202,8 +198,7 @@ int fungemain(int argc, char **argv, char **envp){
 				return EINVAL;
 			}
 		}else if(strncmp(argv[a], "-fthreads=", 10) == 0){
-			std::strtok(argv[a], "=");
-			char* arg = std::strtok(NULL, "=");
+			const char* arg = &argv[a][10];
 			if(strcmp(arg, "native") == 0){
 				funge_config.threads = THREAD_NATIVE;
 			}else if(strcmp(arg, "funge") == 0){
-- 
2.43.0


From 31ffbdfbfd740c726e9728c72df1b32898696c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:52 +0000
Subject: [PATCH 49/88] fix: -l truncated the ids of long fingerprints

---
 src/Funge.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Funge.cpp b/src/Funge.cpp
index 37f5c62..ad0a7d8 100644
--- a/src/Funge.cpp
+++ b/src/Funge.cpp
@@ -209,7 +209,7 @@ int fungemain(int argc, char **argv, char **envp){
 			}
 		}else if(strncmp(argv[a], "-l", 2) == 0){
 			std::string fing(&argv[a][2]);
-			uint64_t fingerprint = std::accumulate(fing.begin(), fing.end(), 0, [](uint64_t f, char c){return (f << 8) + c;});
+			uint64_t fingerprint = std::accumulate(fing.begin(), fing.end(), uint64_t(0), [](uint64_t f, unsigned char c){return (f << 8) + c;});
 			funge_config.fingerprints.push_back(fingerprint);
 		}else if(strcmp(argv[a], "-g") == 0){
 			funge_config.mode |= FUNGE_MODE_DEBUG;
-- 
2.43.0


From f50fe2df78f3ebc6427fa0373fb5fd6794ad3192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:52 +0000
Subject: [PATCH 50/88] fix: unknown options were ignored instead of failing
 with EINVAL

---
 src/Funge.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Funge.cpp b/src/Funge.cpp
index ad0a7d8..fdef61e 100644
--- a/src/Funge.cpp
+++ b/src/Funge.cpp
@@ -213,6 +213,9 @@ int fungemain(int argc, char **argv, char **envp){
 			funge_config.fingerprints.push_back(fingerprint);
 		}else if(strcmp(argv[a], "-g") == 0){
 			funge_config.mode |= FUNGE_MODE_DEBUG;
+		}else{
+			std::cerr << "Unsupported option: " << argv[a] << std::endl;
+			return EINVAL;
 		}
 	}
 	if(a < argc){
-- 
2.43.0


From 63466539cc29d0184801442f6d58a68cc955644f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:52 +0000
Subject: [PATCH 51/88] fix: blank lines, trailing blanks and plain names in
 multiverse files

---
 src/Funge.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/Funge.cpp b/src/Funge.cpp
index fdef61e..6bd697b 100644
--- a/src/Funge.cpp
+++ b/src/Funge.cpp
@@ -20,7 +20,7 @@ namespace Funge{
 int createUniverse(const std::filesystem::path& filepath, FungeConfig& config);
 
 int parseFMV(const std::filesystem::path& filepath, FungeConfig& config){
-	std::string dir = filepath.parent_path();
+	std::filesystem::path dir = filepath.parent_path();
 	std::ifstream stream(filepath);
 	stream.peek(); // a directory can be opened, but not read
 	if(stream.fail()){
@@ -34,16 +34,17 @@ int parseFMV(const std::filesystem::path& filepath, FungeConfig& config){
 		auto iss = std::istringstream(line);
 
 		std::string filename;
-		iss >> filename;
+		if(!(iss >> filename)){
+			continue; // blank line
+		}
 		std::filesystem::path path(filename);
 		if(path.is_relative()){
-			path.assign(dir + path.preferred_separator + filename);
+			path = dir / path;
 		}
 		// Get arguments for this universe
 		FungeConfig cfg(config);
-		while(iss.good()){
-			std::string arg;
-			iss >> arg;
+		std::string arg;
+		while(iss >> arg){
 			cfg.args.push_back(arg);
 		}
 
-- 
2.43.0


From 7475274718e3af4730992f0c8a583880946f6a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:58 +0000
Subject: [PATCH 52/88] fix: output file wrote only one cell in unefunge

---
 src/Field.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index 35722cd..3045291 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -208,9 +208,9 @@ void Field::dump(const Vector& start, const Vector& delta, std::ostream& file, b
 			}
 			v.set(1, v[1]+1);   // ++y
 			v.set(0, start[0]); // x = 0
-		}
-		if(v[1] >= end[1]){
-			break;
+			if(v[1] >= end[1]){
+				break;
+			}
 		}
 	}
 }
-- 
2.43.0


From b1e1ffbee4bc02de9d443cd893a4ec3ce1353da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:10 +0000
Subject: [PATCH 53/88] fix: native threads never reported the end of the
 universe

---
 src/FungeUniverse.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index 26d6ba6..7018783 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -118,6 +118,7 @@ void FungeUniverse::operator()(){
 				threads.pop();
 				delete thread;
 			}
+			cv.notify_all();
 			mutex.unlock();
 		}else{
 			mutex.lock();
-- 
2.43.0


From 3daf527dbd768bc3ecf1ce30a86d74a4dfaf01c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:59 +0000
Subject: [PATCH 54/88] fix: destroying a universe with unjoined native threads
 crashed

---
 src/FungeUniverse.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index 7018783..0f92164 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -54,10 +54,14 @@ FungeUniverse::~FungeUniverse(){
 	killAll(1);
 	thread->join();
 
-	std::lock_guard<std::mutex> guard(mutex);
+	// The universe may have ended before all of its threads were joined
+	std::unique_lock<std::mutex> guard(mutex);
 	while(threads.size() > 0){
 		std::thread* thread = threads.front();
+		guard.unlock();
 		thread->join();
+		guard.lock();
+		threads.pop();
 		delete thread;
 	}
 	while(runners.size() > 0){
-- 
2.43.0


From 814a108c17fdd9cc7d9dd9369600d32c9a0489a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:08 +0000
Subject: [PATCH 55/88] fix: an IP created while its universe was killed kept
 running

---
 src/FungeUniverse.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index 0f92164..cc30c41 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -99,6 +99,10 @@ void FungeUniverse::transferRunner(FungeRunner* runner){
 void FungeUniverse::addRunner(FungeRunner* runner){
 	std::lock_guard<std::mutex> guard(mutex);
 	runner->setMode(config.mode);
+	if(!running){
+		// Created while the universe was being killed
+		runner->getIP().stop();
+	}
 	if(config.threads == THREAD_NATIVE){
 		std::thread* thread = new std::thread(std::ref(*runner));
 		threads.push(thread);
-- 
2.43.0


From 72b5e863abcb092c326b063f487041794f13f702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:53 +0000
Subject: [PATCH 56/88] fix: an IP moved to another universe kept reading and
 writing its old funge-space

---
 src/Fingerprint.cpp                 |  1 -
 src/FishStrategy.cpp                |  4 ++--
 src/FungeStrategy.cpp               |  1 -
 src/Unefunge93Strategy.cpp          |  4 ++--
 src/Unefunge98Strategy.cpp          | 10 +++++-----
 src/fingerprint/FingerprintJSTR.cpp |  4 ++--
 src/fingerprint/FingerprintORTH.cpp |  4 ++--
 src/fingerprint/FingerprintSTRN.cpp | 10 +++++-----
 src/fingerprint/FingerprintTOYS.cpp | 28 ++++++++++++++--------------
 src/include/Fingerprint.h           |  1 -
 src/include/FungeStrategy.h         |  1 -
 11 files changed, 32 insertions(+), 36 deletions(-)

diff --git a/src/Fingerprint.cpp b/src/Fingerprint.cpp
index e17dc76..451132d 100644
--- a/src/Fingerprint.cpp
+++ b/src/Fingerprint.cpp
@@ -13,7 +13,6 @@ namespace Funge {
 
 Fingerprint::Fingerprint(FungeRunner& r, std::initializer_list<inst_t> in) :
 	runner(r),
-	field(r.getField()),
 	ip(r.getIP()),
 	stack(r.getStack()),
 	inst(in)
diff --git a/src/FishStrategy.cpp b/src/FishStrategy.cpp
index 66ec3c4..50145e6 100644
--- a/src/FishStrategy.cpp
+++ b/src/FishStrategy.cpp
@@ -431,7 +431,7 @@ FungeError FishStrategy::instructionGet(){
 	check_stack(top, runner.getUniverse().dimensions());
 	const Vector& storage = ip.getStorage();
 	Vector v = popVector(TOP);
-	push(TOP, static_cast<stack_t>(field.get(v+storage)));
+	push(TOP, static_cast<stack_t>(runner.getField().get(v+storage)));
 	return ERROR_NONE;
 }
 
@@ -439,7 +439,7 @@ FungeError FishStrategy::instructionPut(){
 	check_stack(top, runner.getUniverse().dimensions()+1);
 	const Vector& storage = ip.getStorage();
 	Vector v = popVector(TOP);
-	field.put(v+storage, pop(TOP));
+	runner.getField().put(v+storage, pop(TOP));
 	return ERROR_NONE;
 }
 
diff --git a/src/FungeStrategy.cpp b/src/FungeStrategy.cpp
index b920e54..97eac41 100644
--- a/src/FungeStrategy.cpp
+++ b/src/FungeStrategy.cpp
@@ -11,7 +11,6 @@ namespace Funge {
 
 FungeStrategy::FungeStrategy(FungeRunner& r) :
 	runner(r),
-	field(r.getField()),
 	ip(r.getIP()),
 	stack(r.getStack()),
 	rd(),
diff --git a/src/Unefunge93Strategy.cpp b/src/Unefunge93Strategy.cpp
index 53ad889..8739ed4 100644
--- a/src/Unefunge93Strategy.cpp
+++ b/src/Unefunge93Strategy.cpp
@@ -259,14 +259,14 @@ FungeError Unefunge93Strategy::instructionNumOut(){
 FungeError Unefunge93Strategy::instructionGet(){
 	const Vector& storage = ip.getStorage();
 	Vector v = popVector(runner);
-	stack.top().push(static_cast<stack_t>(field.get(v+storage)));
+	stack.top().push(static_cast<stack_t>(runner.getField().get(v+storage)));
 	return ERROR_NONE;
 }
 
 FungeError Unefunge93Strategy::instructionPut(){
 	const Vector& storage = ip.getStorage();
 	Vector v = popVector(runner);
-	field.put(v+storage, stack.top().pop());
+	runner.getField().put(v+storage, stack.top().pop());
 	return ERROR_NONE;
 }
 
diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index 89710db..7d222d0 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -113,7 +113,7 @@ FungeError Unefunge98Strategy::instructionAbsolute(){
 FungeError Unefunge98Strategy::instructionIterate(){
 	Vector v = ip.getPos();
 	ip.next();
-	inst_t c = field.get(ip.getPos());
+	inst_t c = runner.getField().get(ip.getPos());
 	while(c == ' ' || c == ';'){
 		if(c == ';'){
 			do{
@@ -256,7 +256,7 @@ FungeError Unefunge98Strategy::instructionFileIn(){
 		std::ifstream file(filepath);
 		file.peek(); // a directory can be opened, but not read
 		if(!file.fail()){
-			Vector vb = field.parse(va+ip.getStorage(), file, !!(flags & FILE_IN_BINARY));
+			Vector vb = runner.getField().parse(va+ip.getStorage(), file, !!(flags & FILE_IN_BINARY));
 			pushVector(runner, vb);
 			pushVector(runner, va);
 		}else{
@@ -280,7 +280,7 @@ FungeError Unefunge98Strategy::instructionFileOut(){
 		Vector vb = popVector(runner);
 		std::ofstream file(filepath);
 		if(!file.fail()){
-			field.dump(va, vb, file, !(flags & FILE_OUT_TEXT));
+			runner.getField().dump(va, vb, file, !(flags & FILE_OUT_TEXT));
 		}else{
 			ret = ERROR_UNSPEC;
 		}
@@ -400,11 +400,11 @@ void Unefunge98Strategy::pushSysInfo(stack_t num){
 	pushes += stack.top().push((dt->tm_year << 16) + ((dt->tm_mon+1) << 8) + dt->tm_mday);
 	// Greatest non-space
 	for(size_t i = 0; i < s; ++i){
-		pushes += stack.top().push(field.max(i)-field.min(i));
+		pushes += stack.top().push(runner.getField().max(i)-runner.getField().min(i));
 	}
 	// Least non-space
 	for(size_t i = 0; i < s; ++i){
-		pushes += stack.top().push(field.min(i));
+		pushes += stack.top().push(runner.getField().min(i));
 	}
 	// Storage Offset
 	pushes += pushVector(runner, ip.getStorage());
diff --git a/src/fingerprint/FingerprintJSTR.cpp b/src/fingerprint/FingerprintJSTR.cpp
index ccbd751..e7d0e95 100644
--- a/src/fingerprint/FingerprintJSTR.cpp
+++ b/src/fingerprint/FingerprintJSTR.cpp
@@ -22,7 +22,7 @@ FungeError FingerprintJSTR::execute(inst_t cmd){
 			Vector pos = va + ip.getStorage();
 			stack.top().push(0);
 			for( ; n > 0; --n){
-				stack.top().push(field.get(pos));
+				stack.top().push(runner.getField().get(pos));
 				pos += vd;
 			}
 		} break;
@@ -32,7 +32,7 @@ FungeError FingerprintJSTR::execute(inst_t cmd){
 			Vector vd = popVector(runner);
 			Vector pos = va + ip.getStorage();
 			for( ; n > 0; --n){
-				field.put(pos, stack.top().pop());
+				runner.getField().put(pos, stack.top().pop());
 				pos += vd;
 			}
 		} break;
diff --git a/src/fingerprint/FingerprintORTH.cpp b/src/fingerprint/FingerprintORTH.cpp
index b1361ec..acddaf8 100644
--- a/src/fingerprint/FingerprintORTH.cpp
+++ b/src/fingerprint/FingerprintORTH.cpp
@@ -29,7 +29,7 @@ FungeError FingerprintORTH::execute(inst_t cmd){
 			stack_t x = stack.top().pop();
 			stack_t y = stack.top().pop();
 			Vector v({x, y});
-			stack.top().push(field.get(v));
+			stack.top().push(runner.getField().get(v));
 		} break;
 		case 'O':{
 			stack_t a = stack.top().pop();
@@ -41,7 +41,7 @@ FungeError FingerprintORTH::execute(inst_t cmd){
 			stack_t y = stack.top().pop();
 			stack_t i = stack.top().pop();
 			Vector v({x, y});
-			field.put(v, static_cast<inst_t>(i));
+			runner.getField().put(v, static_cast<inst_t>(i));
 		} break;
 		case 'S':{
 			std::string str = popString(stack.top());
diff --git a/src/fingerprint/FingerprintSTRN.cpp b/src/fingerprint/FingerprintSTRN.cpp
index 19f9c07..443da77 100644
--- a/src/fingerprint/FingerprintSTRN.cpp
+++ b/src/fingerprint/FingerprintSTRN.cpp
@@ -44,10 +44,10 @@ FungeError FingerprintSTRN::execute(inst_t cmd){
 			Vector va = popVector(runner);
 			va += ip.getStorage();
 			std::string str;
-			for( ; field.get(va) && va.get(0) <= field.max(0); va += Vector{1}){
-				str += field.get(va);
+			for( ; runner.getField().get(va) && va.get(0) <= runner.getField().max(0); va += Vector{1}){
+				str += runner.getField().get(va);
 			}
-			if(field.get(va)){
+			if(runner.getField().get(va)){
 				ret = ERROR_UNSPEC;
 				break;
 			}
@@ -91,10 +91,10 @@ FungeError FingerprintSTRN::execute(inst_t cmd){
 			va += ip.getStorage();
 			std::string str = popString(stack.top());
 			for(char c : str){
-				field.put(va, c);
+				runner.getField().put(va, c);
 				va += Vector{1};
 			}
-			field.put(va, 0);
+			runner.getField().put(va, 0);
 		} break;
 		case 'R':{
 			stack_t n = stack.top().pop();
diff --git a/src/fingerprint/FingerprintTOYS.cpp b/src/fingerprint/FingerprintTOYS.cpp
index 4008cbc..a7fd4dd 100644
--- a/src/fingerprint/FingerprintTOYS.cpp
+++ b/src/fingerprint/FingerprintTOYS.cpp
@@ -60,7 +60,7 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 			if(sizeToRange(size)){
 				VectorRange range(Vector({0}), size);
 				for(range.begin(); *range != range.end(); ++range){
-					field.put(dest + *range, stack.top().pop());
+					runner.getField().put(dest + *range, stack.top().pop());
 				}
 			}
 		} break;
@@ -70,7 +70,7 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 			if(sizeToRange(size)){
 				VectorRange range(size, Vector({0}));
 				for(range.begin(); *range != range.end(); ++range){
-					stack.top().push(field.get(src + *range));
+					stack.top().push(runner.getField().get(src + *range));
 				}
 			}
 		} break;
@@ -90,8 +90,8 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 		case 'J':{
 			dim_t n = stack.top().pop();
 			if(n != 0){
-				dim_t ymin = field.min(1);
-				dim_t ymax = field.max(1);
+				dim_t ymin = runner.getField().min(1);
+				dim_t ymax = runner.getField().max(1);
 				dim_t x = ip.getPos().get(0);
 				copySpace(Vector({x, ymin}), Vector({1, ymax-ymin+1}), Vector({x, ymin+n}), (n < 0), true);
 			}
@@ -106,7 +106,7 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 			Vector delta = ip.getDelta();
 			delta.left();
 			Vector v = ip.getPos() + delta;
-			stack_t a = field.get(v);
+			stack_t a = runner.getField().get(v);
 			stack.top().push(a);
 		} break;
 		case 'M':{
@@ -121,8 +121,8 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 		case 'O':{
 			dim_t n = stack.top().pop();
 			if(n != 0){
-				dim_t xmin = field.min(0);
-				dim_t xmax = field.max(0);
+				dim_t xmin = runner.getField().min(0);
+				dim_t xmax = runner.getField().max(0);
 				dim_t y = ip.getPos().get(1);
 				copySpace(Vector({xmin, y}), Vector({xmax-xmin+1, 1}), Vector({xmin+n, y}), (n < 0), true);
 			}
@@ -139,13 +139,13 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 			delta.reverse();
 			Vector v = ip.getPos() + delta;
 			stack_t a = stack.top().pop();
-			field.put(v, a);
+			runner.getField().put(v, a);
 		} break;
 		case 'R':{
 			Vector delta = ip.getDelta();
 			delta.right();
 			Vector v = ip.getPos() + delta;
-			stack_t a = field.get(v);
+			stack_t a = runner.getField().get(v);
 			stack.top().push(a);
 		} break;
 		case 'S':{
@@ -155,7 +155,7 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 			if(sizeToRange(size)){
 				VectorRange range(Vector({0}), size);
 				for(range.begin(); *range != range.end(); ++range){
-					field.put(dest + *range, i);
+					runner.getField().put(dest + *range, i);
 				}
 			}
 		} break;
@@ -212,7 +212,7 @@ FungeError FingerprintTOYS::execute(inst_t cmd){
 		case 'W':{
 			Vector v = popVector(runner);
 			stack_t value = stack.top().pop();
-			stack_t cell = field.get(v);
+			stack_t cell = runner.getField().get(v);
 			if(cell < value){
 				stack.top().push(value);
 				pushVector(runner, v);
@@ -264,10 +264,10 @@ void FingerprintTOYS::copySpace(const Vector& src, const Vector& sz, const Vecto
 		}
 		VectorRange range(start, end);
 		for(range.begin(); *range != range.end(); ++range){
-			inst_t i = field.get(src + *range);
-			field.put(dest + *range, i);
+			inst_t i = runner.getField().get(src + *range);
+			runner.getField().put(dest + *range, i);
 			if(move){
-				field.put(src + *range, ' ');
+				runner.getField().put(src + *range, ' ');
 			}
 		}
 	}
diff --git a/src/include/Fingerprint.h b/src/include/Fingerprint.h
index 95ad62b..ec8f5cf 100644
--- a/src/include/Fingerprint.h
+++ b/src/include/Fingerprint.h
@@ -24,7 +24,6 @@ class Fingerprint {
 	
 	protected:
 		FungeRunner& runner;
-		Field& field;
 		InstructionPointer& ip;
 		StackStack& stack;
 		std::vector<inst_t> inst;
diff --git a/src/include/FungeStrategy.h b/src/include/FungeStrategy.h
index ab1aec4..dda894c 100644
--- a/src/include/FungeStrategy.h
+++ b/src/include/FungeStrategy.h
@@ -27,7 +27,6 @@ class FungeStrategy {
 	
 	protected:
 		FungeRunner& runner;
-		Field& field;
 		InstructionPointer& ip;
 		StackStack& stack;
 		
-- 
2.43.0


From 1a945ffea59834fafbc102976c52674e3401715e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 57/88] fix: stop flags, exit code and IP ids were shared
 between threads without synchronisation

---
 src/FungeRunner.cpp              | 2 +-
 src/InstructionPointer.cpp       | 2 +-
 src/include/FungeRunner.h        | 3 ++-
 src/include/FungeUniverse.h      | 5 +++--
 src/include/InstructionPointer.h | 3 ++-
 5 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/FungeRunner.cpp b/src/FungeRunner.cpp
index 9c389ee..25525dd 100644
--- a/src/FungeRunner.cpp
+++ b/src/FungeRunner.cpp
@@ -17,7 +17,7 @@
 
 namespace Funge {
 
-size_t FungeRunner::count = 0;
+std::atomic<size_t> FungeRunner::count = 0;
 
 FungeRunner::FungeRunner(FungeUniverse& uni, const Vector& pos, const Vector& delta) :
 	id(count++),
diff --git a/src/InstructionPointer.cpp b/src/InstructionPointer.cpp
index 5932f0a..b61df2c 100644
--- a/src/InstructionPointer.cpp
+++ b/src/InstructionPointer.cpp
@@ -25,7 +25,7 @@ InstructionPointer::InstructionPointer(FungeRunner& r) :
 InstructionPointer::InstructionPointer(const InstructionPointer& orig, FungeRunner& r) :
 	observers(),
 	runner(r),
-	stopped(orig.stopped),
+	stopped(orig.stopped.load()),
 	pos(orig.pos),
 	delta(orig.delta),
 	storage(orig.storage)
diff --git a/src/include/FungeRunner.h b/src/include/FungeRunner.h
index bf3f646..d8fac42 100644
--- a/src/include/FungeRunner.h
+++ b/src/include/FungeRunner.h
@@ -12,6 +12,7 @@
 #include "FungeStateNormal.h"
 #include "FungeStateString.h"
 #include "FungeConfig.h"
+#include <atomic>
 #include <memory>
 #include <optional>
 
@@ -58,7 +59,7 @@ class FungeRunner {
 		std::optional<size_t> getParentID() const;
 	
 	private:
-		static size_t count;
+		static std::atomic<size_t> count;
 
 		size_t id;
 		FungeUniverse* universe;
diff --git a/src/include/FungeUniverse.h b/src/include/FungeUniverse.h
index 954bfee..7a34fd1 100644
--- a/src/include/FungeUniverse.h
+++ b/src/include/FungeUniverse.h
@@ -11,6 +11,7 @@
 #include "FungeRunner.h"
 #include "FungeDebugger.h"
 #include "FungeSem.h"
+#include <atomic>
 #include <condition_variable>
 #include <mutex>
 #include <iostream>
@@ -124,8 +125,8 @@ class FungeUniverse {
 		bool invertHL() const;
 	
 	private:
-		bool running;
-		int exitcode;
+		std::atomic<bool> running;
+		std::atomic<int> exitcode;
 		FungeConfig config;
 		FungeDebugger debug;
 		Field field;
diff --git a/src/include/InstructionPointer.h b/src/include/InstructionPointer.h
index b4400d3..6f78992 100644
--- a/src/include/InstructionPointer.h
+++ b/src/include/InstructionPointer.h
@@ -8,6 +8,7 @@
 
 #include "Vector.h"
 #include "funge_types.h"
+#include <atomic>
 #include <functional>
 
 namespace Funge {
@@ -133,7 +134,7 @@ class InstructionPointer {
 	private:
 		std::vector<std::function<void(const Vector&)>> observers;
 		FungeRunner& runner;
-		bool stopped;
+		std::atomic<bool> stopped;
 		Vector pos;
 		Vector delta;
 		Vector storage;
-- 
2.43.0


From 12cd87fafdd40a713e05a4b536a2f09ae1632c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 58/88] fix: funge-space was read and written by several
 threads without a lock

---
 src/Field.cpp       | 20 ++++++++++++++------
 src/include/Field.h |  2 ++
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index 3045291..b685cbf 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -6,6 +6,7 @@
 
 #include "Field.h"
 #include <limits>
+#include <mutex>
 #include <string>
 #include <sstream>
 
@@ -18,7 +19,8 @@ Field::Field(std::istream& file, FileFormat fmt, size_t dim, FungeCell csize) :
 	planes(),
 	observers(),
 	dimensions(dim),
-	cellsize(csize)
+	cellsize(csize),
+	mutex()
 {
 	switch(fmt){
 		default:
@@ -44,7 +46,8 @@ Field::Field(size_t dim, FungeCell csize) :
 	planes(),
 	observers(),
 	dimensions(dim),
-	cellsize(csize)
+	cellsize(csize),
+	mutex()
 {
 
 }
@@ -230,6 +233,7 @@ void Field::reset(dim_t d, Vector& v, const Vector& start, Vector& max){
 }
 
 dim_t Field::min(size_t d) const{
+	std::shared_lock<std::shared_mutex> guard(mutex);
 	dim_t ret = 0;
 	if(d < mins.size()){
 		ret = mins[d];
@@ -238,6 +242,7 @@ dim_t Field::min(size_t d) const{
 }
 
 dim_t Field::max(size_t d) const{
+	std::shared_lock<std::shared_mutex> guard(mutex);
 	dim_t ret = 0;
 	if(d < maxs.size()){
 		ret = maxs[d];
@@ -246,16 +251,17 @@ dim_t Field::max(size_t d) const{
 }
 
 void Field::put(const Vector& p, inst_t v){
+	if(cellsize == CELL_CHAR){
+		v = static_cast<char>(v);
+	}
+	callObservers(p, v);
+	std::unique_lock<std::shared_mutex> guard(mutex);
 	while(maxs.size() < p.size()){
 		maxs.push_back(0);
 	}
 	while(mins.size() < p.size()){
 		mins.push_back(0);
 	}
-	if(cellsize == CELL_CHAR){
-		v = static_cast<char>(v);
-	}
-	callObservers(p, v);
 	if(v == ' '){
 		auto find = field.find(p);
 		if(find != field.end()){
@@ -297,6 +303,7 @@ void Field::put(const Vector& p, inst_t v){
 }
 
 size_t Field::size() const {
+	std::shared_lock<std::shared_mutex> guard(mutex);
 	if(dimensions == 0){
 		return maxs.size();
 	}else{
@@ -305,6 +312,7 @@ size_t Field::size() const {
 }
 
 inst_t Field::get(const Vector& p) const{
+	std::shared_lock<std::shared_mutex> guard(mutex);
 	inst_t ret = ' ';
 	auto find = field.find(p);
 	if(find != field.end()){
diff --git a/src/include/Field.h b/src/include/Field.h
index b0b8474..bf9e827 100644
--- a/src/include/Field.h
+++ b/src/include/Field.h
@@ -9,6 +9,7 @@
 #include "Vector.h"
 #include "funge_types.h"
 #include <iostream>
+#include <shared_mutex>
 #include <unordered_map>
 #include <vector>
 #include <functional>
@@ -131,6 +132,7 @@ class Field {
 		std::vector<std::function<void(const Vector&, inst_t)>> observers;
 		size_t dimensions;
 		FungeCell cellsize;
+		mutable std::shared_mutex mutex;
 		
 		void parseBeq(std::istream& file);
 		void parseFungeLib(std::istream& file);
-- 
2.43.0


From bdb69e94f32b9c6c5c64344b7110f82e821192fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 59/88] fix: size, age, mode and copies of a stack did not take
 its lock

---
 src/Stack.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Stack.cpp b/src/Stack.cpp
index b6d2272..66372b7 100644
--- a/src/Stack.cpp
+++ b/src/Stack.cpp
@@ -20,11 +20,12 @@ Stack::Stack() :
 
 Stack::Stack(const Stack& orig) :
 	mode(),
-	stack(orig.stack),
+	stack(),
 	ops(0),
 	mutex()
 {
-	
+	std::lock_guard<std::mutex> lock(orig.mutex);
+	stack = orig.stack;
 }
 
 stack_t Stack::pop(){
@@ -74,10 +75,12 @@ void Stack::clear(){
 }
 
 size_t Stack::size() const{
+	std::lock_guard<std::mutex> lock(mutex);
 	return stack.size();
 }
 
 size_t Stack::age() const{
+	std::lock_guard<std::mutex> lock(mutex);
 	return ops;
 }
 
@@ -108,6 +111,7 @@ stack_t Stack::operator[](size_t p) const{
 }
 
 void Stack::setMode(FungeMode m){
+	std::lock_guard<std::mutex> lock(mutex);
 	mode = m;
 }
 
-- 
2.43.0


From 3d25667daafd1b48edf4eae037869fa21375f34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:41 +0000
Subject: [PATCH 60/88] fix: modes, the list of IPs and the running state were
 read without the universe's lock

---
 src/FungeUniverse.cpp       | 31 +++++++++++++++++++++----------
 src/include/FungeUniverse.h |  2 ++
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index cc30c41..bffccc5 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -14,6 +14,7 @@ FungeUniverse::FungeUniverse(std::istream& file, Field::FileFormat fmt, const Fu
 	running(true),
 	exitcode(0),
 	config(cfg),
+	mode(cfg.mode),
 	debug(*this),
 	field(file, fmt, cfg.dimensions, cfg.cells),
 	thread(nullptr),
@@ -34,6 +35,7 @@ FungeUniverse::FungeUniverse(const FungeConfig& cfg):
 	running(true),
 	exitcode(0),
 	config(cfg),
+	mode(cfg.mode),
 	debug(*this),
 	field(cfg.dimensions, cfg.cells),
 	thread(nullptr),
@@ -90,7 +92,7 @@ void FungeUniverse::transferRunner(FungeRunner* runner){
 	if(&runner->getUniverse() != this){
 		std::lock_guard<std::mutex> guard(mutex);
 		runner->setUniverse(*this);
-		runner->setMode(config.mode);
+		runner->setMode(mode);
 		runners.push_back(runner);
 		semaphore.release();
 	}
@@ -98,7 +100,7 @@ void FungeUniverse::transferRunner(FungeRunner* runner){
 
 void FungeUniverse::addRunner(FungeRunner* runner){
 	std::lock_guard<std::mutex> guard(mutex);
-	runner->setMode(config.mode);
+	runner->setMode(mode);
 	if(!running){
 		// Created while the universe was being killed
 		runner->getIP().stop();
@@ -159,7 +161,7 @@ void FungeUniverse::operator()(){
 
 void FungeUniverse::wait() const{
 	std::unique_lock<std::mutex> lock(mutex);
-	cv.wait(lock, [this]{return !isRunning();});
+	cv.wait(lock, [this]{return !isAlive();});
 }
 
 int FungeUniverse::get() const{
@@ -178,6 +180,11 @@ void FungeUniverse::killAll(int ret){
 }
 
 bool FungeUniverse::isRunning() const{
+	std::lock_guard<std::mutex> guard(mutex);
+	return isAlive();
+}
+
+bool FungeUniverse::isAlive() const{
 	bool alive = (runners.size() > 0);
 	if(config.threads == THREAD_NATIVE){
 		alive = (threads.size() > 0);
@@ -214,8 +221,9 @@ const std::vector<uint64_t>& FungeUniverse::fingerprints() const {
 }
 
 FungeRunner* FungeUniverse::getRunner(size_t id){
+	std::lock_guard<std::mutex> guard(mutex);
 	for(auto r : runners){
-		if(r->getID() == id){
+		if(r->getID() == id && r->isRunning()){
 			return r;
 		}
 	}
@@ -242,31 +250,34 @@ FungeString FungeUniverse::stringStyle() const {
 }
 
 void FungeUniverse::setMode(FungeMode m){
-	config.mode |= m;
+	std::lock_guard<std::mutex> guard(mutex);
+	mode = mode | m;
 	updateMode();
 }
 
 void FungeUniverse::clearMode(FungeMode m){
-	config.mode &= ~m;
+	std::lock_guard<std::mutex> guard(mutex);
+	mode = mode & ~m;
 	updateMode();
 }
 
 void FungeUniverse::toggleMode(FungeMode m){
-	config.mode ^= m;
+	std::lock_guard<std::mutex> guard(mutex);
+	mode = mode ^ m;
 	updateMode();
 }
 
 FungeMode FungeUniverse::getMode() const {
-	return config.mode;
+	return mode;
 }
 
 bool FungeUniverse::isMode(FungeMode m) const {
-	return !!(config.mode & m);
+	return !!(mode & m);
 }
 
 void FungeUniverse::updateMode(){
 	for(auto r : runners){
-		r->setMode(config.mode);
+		r->setMode(mode);
 	}
 }
 
diff --git a/src/include/FungeUniverse.h b/src/include/FungeUniverse.h
index 7a34fd1..3d59e25 100644
--- a/src/include/FungeUniverse.h
+++ b/src/include/FungeUniverse.h
@@ -128,6 +128,7 @@ class FungeUniverse {
 		std::atomic<bool> running;
 		std::atomic<int> exitcode;
 		FungeConfig config;
+		std::atomic<FungeMode> mode;
 		FungeDebugger debug;
 		Field field;
 		std::thread* thread;
@@ -141,6 +142,7 @@ class FungeUniverse {
 		explicit FungeUniverse(const FungeConfig& cfg);
 		void addRunner(FungeRunner* runner);
 		void updateMode();
+		bool isAlive() const;
 
 		friend class FungeMultiverse;
 };
-- 
2.43.0


From 2ec37369504a4879dcad1bf3732200148e17c81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 61/88] fix: an IP that moved between universes could be lost,
 used after its deletion or let the program end early

---
 src/FungeMultiverse.cpp       | 58 ++++++++++++++++++-------
 src/FungeRunner.cpp           |  1 +
 src/FungeUniverse.cpp         | 79 +++++++++++++++++++++++++----------
 src/include/FungeMultiverse.h |  8 ++++
 src/include/FungeUniverse.h   |  8 ++++
 5 files changed, 117 insertions(+), 37 deletions(-)

diff --git a/src/FungeMultiverse.cpp b/src/FungeMultiverse.cpp
index 37ceab8..bf489b2 100644
--- a/src/FungeMultiverse.cpp
+++ b/src/FungeMultiverse.cpp
@@ -5,6 +5,7 @@
  */
 
 #include "FungeMultiverse.h"
+#include <unordered_set>
 
 namespace Funge {
 
@@ -17,10 +18,27 @@ FungeMultiverse::FungeMultiverse() :
 }
 
 FungeMultiverse::~FungeMultiverse(){
-	std::lock_guard<std::mutex> guard(mutex);
-	for(auto uni : universes){
+	// Runners of one universe may still be using another
+	std::unordered_set<FungeUniverse*> ended;
+	while(true){
+		FungeUniverse* next = nullptr;
+		{
+			std::lock_guard<std::mutex> guard(mutex);
+			for(auto uni : universes){
+				if(!ended.contains(uni.second)){
+					next = uni.second;
+				}
+			}
+		}
+		if(next == nullptr){
+			break;
+		}
+		next->join();
+		ended.insert(next);
+	}
+	for(auto uni : ended){
 		// Destroy the universe
-		delete uni.second;
+		delete uni;
 	}
 }
 
@@ -61,31 +79,42 @@ FungeUniverse* FungeMultiverse::create(FungeConfig& cfg){
 }
 
 int FungeMultiverse::waitAll(){
-	bool running = false;
-	size_t count = 0;
-	do{
-		running = false;
+	std::unique_lock<std::mutex> guard(mutex);
+	// Keep looping until all universes are dead
+	while(true){
+		const FungeUniverse* running = nullptr;
 		for(auto next : universes){
-			const FungeUniverse* uni = next.second;
-			if(uni->isRunning()){
-				running = true;
+			if(next.second->isRunning()){
+				running = next.second;
 			}
-			uni->wait();
-			++count;
 		}
-		// Keep looping until all universes are dead
-	}while(running || count < universes.size());
+		if(running == nullptr){
+			break;
+		}
+		guard.unlock();
+		running->wait();
+		guard.lock();
+	}
 
 	return prime->get();
 }
 
+void FungeMultiverse::move(FungeRunner* runner, FungeUniverse& from, FungeUniverse& to){
+	// The lock keeps the runner from being between universes when they are checked
+	std::lock_guard<std::mutex> guard(mutex);
+	from.removeRunner(runner);
+	to.acceptRunner(runner);
+}
+
 void FungeMultiverse::killAll(int ret){
+	std::lock_guard<std::mutex> guard(mutex);
 	for(auto next : universes){
 		next.second->killAll(ret);
 	}
 }
 
 FungeUniverse* FungeMultiverse::operator[](std::string name){
+	std::lock_guard<std::mutex> guard(mutex);
 	if(universes.contains(name)){
 		return universes[name];
 	}
@@ -100,6 +129,7 @@ std::unordered_map<std::string, FungeUniverse*>::const_iterator FungeMultiverse:
 }
 
 size_t FungeMultiverse::size() const{
+	std::lock_guard<std::mutex> guard(mutex);
 	return universes.size();
 }
 
diff --git a/src/FungeRunner.cpp b/src/FungeRunner.cpp
index 25525dd..9d2d8d1 100644
--- a/src/FungeRunner.cpp
+++ b/src/FungeRunner.cpp
@@ -127,6 +127,7 @@ void FungeRunner::operator()(){
 		tick();
 		std::this_thread::yield();
 	}
+	universe->endRunner();
 }
 
 void FungeRunner::tick(){
diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index bffccc5..92bbda6 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -7,6 +7,8 @@
 #include "FungeUniverse.h"
 #include "FungeRunner.h"
 #include "FungeConfig.h"
+#include "FungeMultiverse.h"
+#include <algorithm>
 
 namespace Funge {
 
@@ -53,19 +55,7 @@ FungeUniverse::FungeUniverse(const FungeConfig& cfg):
 }
 
 FungeUniverse::~FungeUniverse(){
-	killAll(1);
-	thread->join();
-
-	// The universe may have ended before all of its threads were joined
-	std::unique_lock<std::mutex> guard(mutex);
-	while(threads.size() > 0){
-		std::thread* thread = threads.front();
-		guard.unlock();
-		thread->join();
-		guard.lock();
-		threads.pop();
-		delete thread;
-	}
+	join();
 	while(runners.size() > 0){
 		FungeRunner* runner = runners.front();
 		delete runner;
@@ -88,14 +78,55 @@ void FungeUniverse::createRunner(const Vector& pos, const Vector& delta, FungeRu
 	addRunner(runner);
 }
 
+void FungeUniverse::join(){
+	killAll(1);
+	if(thread->joinable()){
+		thread->join();
+	}
+
+	// The universe may have ended before all of its threads were joined
+	std::unique_lock<std::mutex> guard(mutex);
+	while(threads.size() > 0){
+		std::thread* thread = threads.front();
+		guard.unlock();
+		thread->join();
+		guard.lock();
+		threads.pop();
+		delete thread;
+	}
+}
+
 void FungeUniverse::transferRunner(FungeRunner* runner){
-	if(&runner->getUniverse() != this){
-		std::lock_guard<std::mutex> guard(mutex);
+	FungeUniverse& from = runner->getUniverse();
+	if(&from != this){
 		runner->setUniverse(*this);
-		runner->setMode(mode);
-		runners.push_back(runner);
-		semaphore.release();
+		if(config.threads == THREAD_NATIVE){
+			FungeMultiverse::getInstance().move(runner, from, *this);
+		}
+		// Otherwise the old universe hands the runner over after its tick
+	}
+}
+
+void FungeUniverse::removeRunner(FungeRunner* runner){
+	std::lock_guard<std::mutex> guard(mutex);
+	runners.remove(runner);
+	cv.notify_all();
+}
+
+void FungeUniverse::acceptRunner(FungeRunner* runner){
+	std::lock_guard<std::mutex> guard(mutex);
+	runner->setMode(mode);
+	if(!running){
+		// The universe was killed before the runner arrived
+		runner->getIP().stop();
 	}
+	runners.push_back(runner);
+	semaphore.release();
+}
+
+void FungeUniverse::endRunner(){
+	std::lock_guard<std::mutex> guard(mutex);
+	cv.notify_all();
 }
 
 void FungeUniverse::addRunner(FungeRunner* runner){
@@ -139,10 +170,14 @@ void FungeUniverse::operator()(){
 				if(thread->isRunning()){
 					thread->tick();
 				}
+				FungeUniverse& next = thread->getUniverse();
+				if(&next != this){
+					FungeMultiverse::getInstance().move(thread, *this, next);
+				}
 				mutex.lock();
 
-				runners.pop_front();
-				if(&thread->getUniverse() == this){
+				if(&next == this){
+					runners.pop_front();
 					if(thread->isRunning()){
 						runners.push_back(thread);
 					}else{
@@ -150,8 +185,6 @@ void FungeUniverse::operator()(){
 						delete thread;
 						cv.notify_all();
 					}
-				}else{
-					cv.notify_all();
 				}
 			}
 			mutex.unlock();
@@ -187,7 +220,7 @@ bool FungeUniverse::isRunning() const{
 bool FungeUniverse::isAlive() const{
 	bool alive = (runners.size() > 0);
 	if(config.threads == THREAD_NATIVE){
-		alive = (threads.size() > 0);
+		alive = std::any_of(runners.begin(), runners.end(), [](const FungeRunner* r){return r->isRunning();});
 	}
 	return running && alive;
 }
diff --git a/src/include/FungeMultiverse.h b/src/include/FungeMultiverse.h
index 381e4d9..a4d46b7 100644
--- a/src/include/FungeMultiverse.h
+++ b/src/include/FungeMultiverse.h
@@ -55,6 +55,14 @@ class FungeMultiverse {
 		 */
 		void killAll(int ret);
 
+		/**
+		 * Move a runner from one universe to another.
+		 * @param runner Runner to move.
+		 * @param from Universe the runner leaves.
+		 * @param to Universe the runner enters.
+		 */
+		void move(FungeRunner* runner, FungeUniverse& from, FungeUniverse& to);
+
 		/**
 		 * Lookup universe by name.
 		 * @param name Name to lookup.
diff --git a/src/include/FungeUniverse.h b/src/include/FungeUniverse.h
index 3d59e25..a91b8cb 100644
--- a/src/include/FungeUniverse.h
+++ b/src/include/FungeUniverse.h
@@ -101,6 +101,11 @@ class FungeUniverse {
 		 */
 		FungeRunner* getCreator() const;
 
+		/**
+		 * Notify the universe that a runner's thread has ended.
+		 */
+		void endRunner();
+
 		void operator()();
 
 		FungeDebugger& getDebugger();
@@ -141,6 +146,9 @@ class FungeUniverse {
 		
 		explicit FungeUniverse(const FungeConfig& cfg);
 		void addRunner(FungeRunner* runner);
+		void removeRunner(FungeRunner* runner);
+		void acceptRunner(FungeRunner* runner);
+		void join();
 		void updateMode();
 		bool isAlive() const;
 
-- 
2.43.0


From 59ab78713a8eaed3269d5f64191548aabb510e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 62/88] fix: a universe could be started before the ones it
 refers to were loaded

---
 src/Funge.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/Funge.cpp b/src/Funge.cpp
index 6bd697b..c3cbd89 100644
--- a/src/Funge.cpp
+++ b/src/Funge.cpp
@@ -17,9 +17,9 @@
 
 namespace Funge{
 
-int createUniverse(const std::filesystem::path& filepath, FungeConfig& config);
+int createUniverse(const std::filesystem::path& filepath, FungeConfig& config, std::vector<FungeUniverse*>& created);
 
-int parseFMV(const std::filesystem::path& filepath, FungeConfig& config){
+int parseFMV(const std::filesystem::path& filepath, FungeConfig& config, std::vector<FungeUniverse*>& created){
 	std::filesystem::path dir = filepath.parent_path();
 	std::ifstream stream(filepath);
 	stream.peek(); // a directory can be opened, but not read
@@ -48,7 +48,7 @@ int parseFMV(const std::filesystem::path& filepath, FungeConfig& config){
 			cfg.args.push_back(arg);
 		}
 
-		int uni = createUniverse(path, cfg);
+		int uni = createUniverse(path, cfg, created);
 		if(uni != 0){
 			return uni;
 		}
@@ -57,7 +57,7 @@ int parseFMV(const std::filesystem::path& filepath, FungeConfig& config){
 	return 0;
 }
 
-int createUniverse(const std::filesystem::path& filepath, FungeConfig& config){
+int createUniverse(const std::filesystem::path& filepath, FungeConfig& config, std::vector<FungeUniverse*>& created){
 	Field::FileFormat fmt = Field::FORMAT_BF;
 
 	std::string ext = filepath.extension();
@@ -67,7 +67,7 @@ int createUniverse(const std::filesystem::path& filepath, FungeConfig& config){
 	}else if(ext == ".fl"){
 		fmt = Field::FORMAT_FL;
 	}else if(ext == ".fmv"){
-		return parseFMV(filepath, config);
+		return parseFMV(filepath, config, created);
 	}
 	config.name = filepath;
 
@@ -98,8 +98,7 @@ int createUniverse(const std::filesystem::path& filepath, FungeConfig& config){
 		return EIO;
 	}
 
-	FungeUniverse* universe = FungeMultiverse::getInstance().create(stream, fmt, config);
-	universe->createRunner(Vector{0}, Vector{1});
+	created.push_back(FungeMultiverse::getInstance().create(stream, fmt, config));
 
 	return 0;
 }
@@ -235,10 +234,15 @@ int fungemain(int argc, char **argv, char **envp){
 		funge_config.env.push_back(std::string(*env));
 	}
 
-	int uni = createUniverse(filepath, funge_config);
+	std::vector<FungeUniverse*> created;
+	int uni = createUniverse(filepath, funge_config, created);
 	if(uni != 0){
 		return uni;
 	}
+	// Every universe exists before the first of them starts
+	for(auto universe : created){
+		universe->createRunner(Vector{0}, Vector{1});
+	}
 
 	return FungeMultiverse::getInstance().waitAll();
 }
-- 
2.43.0


From bb11c68aaf1e7f2f3dbd7dfd3d474d3e344b1445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:56 +0000
Subject: [PATCH 63/88] fix: MVRS B created a universe that did not run native
 threads

---
 src/FungeUniverse.cpp               | 4 ++++
 src/fingerprint/FingerprintMVRS.cpp | 1 +
 src/include/FungeUniverse.h         | 1 +
 3 files changed, 6 insertions(+)

diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index 92bbda6..06cb4fa 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -282,6 +282,10 @@ FungeString FungeUniverse::stringStyle() const {
 	return config.strings;
 }
 
+FungeThread FungeUniverse::threading() const {
+	return config.threads;
+}
+
 void FungeUniverse::setMode(FungeMode m){
 	std::lock_guard<std::mutex> guard(mutex);
 	mode = mode | m;
diff --git a/src/fingerprint/FingerprintMVRS.cpp b/src/fingerprint/FingerprintMVRS.cpp
index e4c5b4f..6f7c9e5 100644
--- a/src/fingerprint/FingerprintMVRS.cpp
+++ b/src/fingerprint/FingerprintMVRS.cpp
@@ -55,6 +55,7 @@ FungeError FingerprintMVRS::execute(inst_t cmd){
 				config.dimensions = dim;
 				config.standard = stand;
 				config.mode = flgs;
+				config.threads = universe.threading();
 				config.concurrent = universe.allowConcurrent();
 				config.execute = universe.allowExecute();
 				config.filesystem = universe.allowFilesystem();
diff --git a/src/include/FungeUniverse.h b/src/include/FungeUniverse.h
index a91b8cb..848dacd 100644
--- a/src/include/FungeUniverse.h
+++ b/src/include/FungeUniverse.h
@@ -118,6 +118,7 @@ class FungeUniverse {
 		FungeStandard standard() const;
 		FungeTopo topology() const;
 		FungeString stringStyle() const;
+		FungeThread threading() const;
 		void setMode(FungeMode m);
 		void clearMode(FungeMode m);
 		void toggleMode(FungeMode m);
-- 
2.43.0


From c220540d415da7da47743297a71fb9a8f3205b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:08 +0000
Subject: [PATCH 64/88] fix: references were stored by several threads without
 a lock

---
 src/fingerprint/FingerprintREFC.cpp       | 3 +++
 src/fingerprint/include/FingerprintREFC.h | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/fingerprint/FingerprintREFC.cpp b/src/fingerprint/FingerprintREFC.cpp
index 0b2567f..7576bcd 100644
--- a/src/fingerprint/FingerprintREFC.cpp
+++ b/src/fingerprint/FingerprintREFC.cpp
@@ -10,6 +10,7 @@
 namespace Funge {
 
 std::map<stack_t, Vector> FingerprintREFC::refc_map;
+std::mutex FingerprintREFC::refc_mutex;
 
 FingerprintREFC::FingerprintREFC(FungeRunner& r) :
 	Fingerprint(r, {'R', 'D'})
@@ -19,6 +20,7 @@ FungeError FingerprintREFC::execute(inst_t cmd){
 	switch(cmd){
 		case 'R':{
 			Vector v = popVector(runner);
+			std::lock_guard<std::mutex> guard(refc_mutex);
 			stack_t r = random();
 			auto find = refc_map.find(r);
 			while(find != refc_map.end()){
@@ -30,6 +32,7 @@ FungeError FingerprintREFC::execute(inst_t cmd){
 		} break;
 		case 'D':{
 			stack_t r = stack.top().pop();
+			std::lock_guard<std::mutex> guard(refc_mutex);
 			auto find = refc_map.find(r);
 			if(find != refc_map.end()){
 				Vector v = refc_map[r];
diff --git a/src/fingerprint/include/FingerprintREFC.h b/src/fingerprint/include/FingerprintREFC.h
index 32929fc..19fc3cd 100644
--- a/src/fingerprint/include/FingerprintREFC.h
+++ b/src/fingerprint/include/FingerprintREFC.h
@@ -9,6 +9,7 @@
 #include "Fingerprint.h"
 #include "Vector.h"
 #include <map>
+#include <mutex>
 
 namespace Funge {
 
@@ -21,6 +22,7 @@ class FingerprintREFC : public Fingerprint {
 	
 	protected:
 		static std::map<stack_t, Vector> refc_map;
+		static std::mutex refc_mutex;
 };
 
 }
-- 
2.43.0


From 0b2a956cb7979bd22a90d50a06125ee684d9a2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:44 +0000
Subject: [PATCH 65/88] fix: the list of stacks was used by several threads
 without a lock

---
 src/StackStack.cpp                  | 61 ++++++++++++++++++++---------
 src/fingerprint/FingerprintIIPC.cpp |  6 +--
 src/include/StackStack.h            | 14 ++++++-
 3 files changed, 58 insertions(+), 23 deletions(-)

diff --git a/src/StackStack.cpp b/src/StackStack.cpp
index 7d21aa0..9318412 100644
--- a/src/StackStack.cpp
+++ b/src/StackStack.cpp
@@ -11,51 +11,68 @@ namespace Funge {
 StackStack::StackStack() :
 	select(0),
 	mode(),
-	stack()
+	stack(),
+	mutex()
 {
-	stack.push_back(new Stack());
+	stack.push_back(std::make_shared<Stack>());
 }
 
 StackStack::~StackStack()
 {
-	while(stack.size() > 0){
-		delete stack.back();
-		stack.pop_back();
-	}
+
 }
 
 StackStack::StackStack(const StackStack& orig) :
-	select(orig.select),
-	mode(orig.mode),
-	stack()
+	select(0),
+	mode(),
+	stack(),
+	mutex()
 {
-	for(size_t i = orig.size(); i > 0; --i){
-		stack.push_back(new Stack(orig.at(i-1)));
+	std::lock_guard<std::mutex> guard(orig.mutex);
+	select = orig.select;
+	mode = orig.mode;
+	for(auto s : orig.stack){
+		stack.push_back(std::make_shared<Stack>(*s));
 	}
 }
 
 Stack& StackStack::top(){
-	return at(select);
+	std::lock_guard<std::mutex> guard(mutex);
+	return *locate(select);
 }
 
 Stack& StackStack::second(){
-	return at(select+1);
+	std::lock_guard<std::mutex> guard(mutex);
+	return *locate(select+1);
 }
 
 Stack& StackStack::at(size_t x){
-	return *stack[stack.size()-x-1];
+	std::lock_guard<std::mutex> guard(mutex);
+	return *locate(x);
 }
 
 const Stack& StackStack::top() const{
-	return at(select);
+	std::lock_guard<std::mutex> guard(mutex);
+	return *locate(select);
 }
 
 const Stack& StackStack::second() const{
-	return at(select+1);
+	std::lock_guard<std::mutex> guard(mutex);
+	return *locate(select+1);
 }
 
 const Stack& StackStack::at(size_t x) const{
-	return *stack[stack.size()-x-1];
+	std::lock_guard<std::mutex> guard(mutex);
+	return *locate(x);
+}
+
+std::shared_ptr<Stack> StackStack::share() const{
+	std::lock_guard<std::mutex> guard(mutex);
+	return locate(select);
+}
+
+const std::shared_ptr<Stack>& StackStack::locate(size_t x) const{
+	return stack[stack.size()-x-1];
 }
 
 void StackStack::pop(){
@@ -67,24 +84,27 @@ void StackStack::push(){
 }
 
 void StackStack::insert(size_t pos){
+	std::lock_guard<std::mutex> guard(mutex);
 	auto iter = stack.begin();
 	iter += stack.size()-pos-select;
-	iter = stack.insert(iter, new Stack());
+	iter = stack.insert(iter, std::make_shared<Stack>());
 	(*iter)->setMode(mode);
 }
 
 void StackStack::remove(size_t pos){
+	std::lock_guard<std::mutex> guard(mutex);
 	auto iter = stack.begin();
 	iter += stack.size()-pos-select-1;
-	delete *iter;
 	stack.erase(iter);
 }
 
 size_t StackStack::size() const{
+	std::lock_guard<std::mutex> guard(mutex);
 	return stack.size();
 }
 
 void StackStack::setMode(FungeMode m){
+	std::lock_guard<std::mutex> guard(mutex);
 	mode = m;
 	for(auto s : stack){
 		s->setMode(m);
@@ -92,10 +112,12 @@ void StackStack::setMode(FungeMode m){
 }
 
 bool StackStack::hasSecond() const{
+	std::lock_guard<std::mutex> guard(mutex);
 	return select+1 < stack.size();
 }
 
 FungeError StackStack::increment(){
+	std::lock_guard<std::mutex> guard(mutex);
 	if(select > 0){
 		--select;
 		return ERROR_NONE;
@@ -105,6 +127,7 @@ FungeError StackStack::increment(){
 }
 
 FungeError StackStack::decrement(){
+	std::lock_guard<std::mutex> guard(mutex);
 	if(select < stack.size()-1){
 		++select;
 		return ERROR_NONE;
diff --git a/src/fingerprint/FingerprintIIPC.cpp b/src/fingerprint/FingerprintIIPC.cpp
index f1bed6d..78445fe 100644
--- a/src/fingerprint/FingerprintIIPC.cpp
+++ b/src/fingerprint/FingerprintIIPC.cpp
@@ -45,7 +45,7 @@ FungeError FingerprintIIPC::execute(inst_t cmd){
 			if(other == nullptr){
 				ret = ERROR_UNSPEC;
 			}else{
-				stack.top().push(other->getStack().top().pop());
+				stack.top().push(other->getStack().share()->pop());
 			}
 		} break;
 		case 'I':
@@ -57,7 +57,7 @@ FungeError FingerprintIIPC::execute(inst_t cmd){
 			if(other == nullptr){
 				ret = ERROR_UNSPEC;
 			}else{
-				stack.top().push(other->getStack().top().peek());
+				stack.top().push(other->getStack().share()->peek());
 			}
 		} break;
 		case 'P':{
@@ -67,7 +67,7 @@ FungeError FingerprintIIPC::execute(inst_t cmd){
 			if(other == nullptr){
 				ret = ERROR_UNSPEC;
 			}else{
-				other->getStack().top().push(val);
+				other->getStack().share()->push(val);
 			}
 		} break;
 		default:
diff --git a/src/include/StackStack.h b/src/include/StackStack.h
index a19944f..2615016 100644
--- a/src/include/StackStack.h
+++ b/src/include/StackStack.h
@@ -8,6 +8,8 @@
 
 #include "Stack.h"
 #include "funge_types.h"
+#include <memory>
+#include <mutex>
 #include <vector>
 
 namespace Funge {
@@ -88,6 +90,12 @@ class StackStack {
 		 * @return Stack at position x.
 		 */
 		const Stack& at(size_t x) const;
+
+		/**
+		 * Get the top Stack for use by another runner.
+		 * @return Top Stack, which remains valid after it has been popped.
+		 */
+		std::shared_ptr<Stack> share() const;
 		
 		/**
 		 * Pop the top Stack.
@@ -146,7 +154,11 @@ class StackStack {
 	private:
 		size_t select;
 		FungeMode mode;
-		std::vector<Stack*> stack;
+		std::vector<std::shared_ptr<Stack>> stack;
+		mutable std::mutex mutex;
+
+		/// Get the pointer to a Stack; the caller holds the mutex.
+		const std::shared_ptr<Stack>& locate(size_t x) const;
 };
 
 }
-- 
2.43.0


From 429add3c3a1b02c33c1b42004cf83ad3a8f93493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:40 +0000
Subject: [PATCH 66/88] fix: reading a vector never ended when its closing
 parenthesis was missing

---
 src/Vector.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Vector.cpp b/src/Vector.cpp
index 354659e..c7c2dfa 100644
--- a/src/Vector.cpp
+++ b/src/Vector.cpp
@@ -171,14 +171,16 @@ std::ostream& operator<<(std::ostream& os, const Vector& rhs){
 
 std::istream& operator>>(std::istream& is, Vector& rhs){
 	rhs.values.clear();
-	char c;
-	is >> c;
+	char c = 0;
+	if(!(is >> c)){
+		return is;
+	}
 	if(c == '('){
 		is >> c;
 		size_t d = 0;
 		dim_t v = 0;
 		bool neg = false;
-		while(c != ')'){
+		while(is && c != ')'){
 			if(isdigit(c)){
 				v = (v*10)+(c-'0');
 			}else if(c == ','){
-- 
2.43.0


From 0e66a311290c63aa97ad1ec039724488a03b889d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:40 +0000
Subject: [PATCH 67/88] fix: the debugger never ended at the end of its input

---
 src/Defunge.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Defunge.cpp b/src/Defunge.cpp
index e02b280..c2ef387 100644
--- a/src/Defunge.cpp
+++ b/src/Defunge.cpp
@@ -97,7 +97,10 @@ void Defunge::debug(FungeDebugger* dbg, FungeRunner* run){
 		std::cout << "\e[33m(defunge)\e[0m " << std::flush;
 		
 		std::string line;
-		std::getline(std::cin, line);
+		if(!std::getline(std::cin, line)){
+			// There are no more commands
+			line = "quit";
+		}
 		auto iss = std::istringstream(line);
 		
 		std::string cmd;
-- 
2.43.0


From d69de543a581d73baf7715e3c2008d82e8b0f741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:40 +0000
Subject: [PATCH 68/88] fix: the debugger listed every thread at the position
 of the current one

---
 src/Defunge.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Defunge.cpp b/src/Defunge.cpp
index c2ef387..e0ce597 100644
--- a/src/Defunge.cpp
+++ b/src/Defunge.cpp
@@ -127,7 +127,7 @@ void Defunge::debug(FungeDebugger* dbg, FungeRunner* run){
 }
 
 void Defunge::printIP(const FungeRunner& r){
-	const InstructionPointer& ip = runner->getIP();
+	const InstructionPointer& ip = r.getIP();
 	std::cout << r.getID() << ": " << ip.getPos() << " \"" << static_cast<char>(ip.get()) << "\"" << std::endl;
 }
 
-- 
2.43.0


From 7a0f7048a94f69549ffe3a9941033399939d1845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:40 +0000
Subject: [PATCH 69/88] fix: the debugger used IPs that had ended

---
 src/Defunge.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Defunge.cpp b/src/Defunge.cpp
index e0ce597..dc2c160 100644
--- a/src/Defunge.cpp
+++ b/src/Defunge.cpp
@@ -139,7 +139,7 @@ void Defunge::printField(FungeDebugger* dbg, const Field& field, const Vector& c
 		inst_t i = field.get(pos);
 		bool color = false;
 		for(auto t : dbg->threads){
-			if(t.second.runner->getIP().getPos() == pos){
+			if(t.second.state != FungeDebugger::STATE_END && t.second.runner->getIP().getPos() == pos){
 				std::cout << "\e[43;1m"; // Yellow background
 				color = true;
 				break;
@@ -269,7 +269,7 @@ Defunge::Error Defunge::threadCommand(std::istringstream& iss){
 	}
 	size_t thread = tid;
 	iss >> thread;
-	if(debugger->threads.contains(thread)){
+	if(debugger->threads.contains(thread) && debugger->threads[thread].state != FungeDebugger::STATE_END){
 		tid = thread;
 		runner = debugger->threads[tid].runner;
 	}
@@ -436,11 +436,11 @@ Defunge::Error Defunge::universeCommand(std::istringstream& iss){
 		FungeUniverse* uni = multi[name];
 		if(uni != nullptr){
 			debugger = &uni->getDebugger();
-			if(debugger->threads.empty()){
+			auto last = debugger->threads.find(debugger->lastThread);
+			if(last == debugger->threads.end() || last->second.state == FungeDebugger::STATE_END){
 				runner = nullptr;
 			}else{
-				size_t id = debugger->lastThread;
-				runner = debugger->threads[id].runner;
+				runner = last->second.runner;
 			}
 		}
 	}
-- 
2.43.0


From c000fbf4ca14a436420321bdebe49e3d33937fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:40 +0000
Subject: [PATCH 70/88] fix: the debugger read past the last stack and gave
 every stack the number 0

---
 src/Defunge.cpp       | 5 ++++-
 src/include/Defunge.h | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Defunge.cpp b/src/Defunge.cpp
index dc2c160..6344227 100644
--- a/src/Defunge.cpp
+++ b/src/Defunge.cpp
@@ -214,7 +214,7 @@ Defunge::Error Defunge::peekCommand(std::istringstream& iss){
 	iss >> c;
 	if(c == 0){
 		for(size_t j = 0; j < stack->size(); ++j){
-			std::cout << "[0] ";
+			std::cout << "[" << j << "] ";
 			for(size_t i = stack->at(j).size(); i > 0; --i){
 				std::cout << stack->at(j).get(i) << " ";
 			}
@@ -223,6 +223,9 @@ Defunge::Error Defunge::peekCommand(std::istringstream& iss){
 	}else{
 		size_t s = 0;
 		iss >> s;
+		if(s >= stack->size()){
+			return DEFUNGE_ARGUMENT;
+		}
 		std::cout << stack->at(s).get(c) << std::endl;
 	}
 	return DEFUNGE_OK;
diff --git a/src/include/Defunge.h b/src/include/Defunge.h
index ac12c48..0c43b10 100644
--- a/src/include/Defunge.h
+++ b/src/include/Defunge.h
@@ -25,6 +25,7 @@ class Defunge {
 			DEFUNGE_OK,
 			DEFUNGE_BREAK,
 			DEFUNGE_NO_THREAD,
+			DEFUNGE_ARGUMENT,
 		};
 
 		typedef Error (Defunge::*debugger_command_t)(std::istringstream&);
-- 
2.43.0


From f6dea0daf011a731b8c03a145ddc8f22ac94f9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:40 +0000
Subject: [PATCH 71/88] fix: one more instruction was executed after the quit
 command of the debugger

---
 src/FungeRunner.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/FungeRunner.cpp b/src/FungeRunner.cpp
index 9d2d8d1..ff2db53 100644
--- a/src/FungeRunner.cpp
+++ b/src/FungeRunner.cpp
@@ -134,6 +134,9 @@ void FungeRunner::tick(){
 	FungeError err = ERROR_UNSPEC;
 	do {
 		getUniverse().getDebugger().tick(*this);
+		if(ip.isStopped()){
+			break; // quit by the debugger
+		}
 		inst_t i = ip.get();
 		err = execute(i);
 		switch(err){
-- 
2.43.0


From d6ef308899de4571c51cc27657c8c2f8d2158875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:40 +0000
Subject: [PATCH 72/88] fix: setpos and setdelta of the debugger used the zero
 vector when none was given

---
 src/Defunge.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Defunge.cpp b/src/Defunge.cpp
index 6344227..64d5ee5 100644
--- a/src/Defunge.cpp
+++ b/src/Defunge.cpp
@@ -314,6 +314,9 @@ Defunge::Error Defunge::setdeltaCommand(std::istringstream& iss){
 
 	Vector v;
 	iss >> v;
+	if(v.size() == 0){
+		return DEFUNGE_ARGUMENT;
+	}
 	InstructionPointer& ip = runner->getIP();
 	ip.setDelta(v);
 	std::cout << "Delta " << ip.getDelta() << std::endl;
@@ -327,6 +330,9 @@ Defunge::Error Defunge::setposCommand(std::istringstream& iss){
 
 	Vector v;
 	iss >> v;
+	if(v.size() == 0){
+		return DEFUNGE_ARGUMENT;
+	}
 	InstructionPointer& ip = runner->getIP();
 	ip.setPos(v);
 	printIP(*runner);
-- 
2.43.0


From 8db53bf1a14b14ae4c51cdbf462b2f31669658fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:40 +0000
Subject: [PATCH 73/88] fix: get and list of the debugger never ended for two
 equal dimensions and crashed for negative ones

---
 src/Defunge.cpp       | 12 ++++++++++++
 src/include/Defunge.h |  1 +
 2 files changed, 13 insertions(+)

diff --git a/src/Defunge.cpp b/src/Defunge.cpp
index 64d5ee5..764eeb4 100644
--- a/src/Defunge.cpp
+++ b/src/Defunge.cpp
@@ -7,6 +7,7 @@
 #include "Defunge.h"
 #include "FungeMultiverse.h"
 #include <mutex>
+#include <algorithm>
 #include <iostream>
 #include <sstream>
 
@@ -131,6 +132,11 @@ void Defunge::printIP(const FungeRunner& r){
 	std::cout << r.getID() << ": " << ip.getPos() << " \"" << static_cast<char>(ip.get()) << "\"" << std::endl;
 }
 
+bool Defunge::isPlane(const Vector& dim, size_t dimensions) const{
+	const dim_t count = std::max<size_t>(dimensions, 2);
+	return dim[0] != dim[1] && dim[0] >= 0 && dim[0] < count && dim[1] >= 0 && dim[1] < count;
+}
+
 void Defunge::printField(FungeDebugger* dbg, const Field& field, const Vector& center, const Vector& size, const Vector& dim, const InstructionPointer* ip){
 	const Vector start = center-size;
 	const Vector end = center+size;
@@ -363,6 +369,9 @@ Defunge::Error Defunge::getCommand(std::istringstream& iss){
 	if(d.size() == 0){
 		d = {0,1};
 	}
+	if(!isPlane(d, debugger->universe.dimensions())){
+		return DEFUNGE_ARGUMENT;
+	}
 	
 	const Field& field = debugger->universe.getField();
 	printField(debugger, field, v, s, d, ip);
@@ -387,6 +396,9 @@ Defunge::Error Defunge::listCommand(std::istringstream& iss){
 	if(d.size() == 0){
 		d = {0,1};
 	}
+	if(!isPlane(d, debugger->universe.dimensions())){
+		return DEFUNGE_ARGUMENT;
+	}
 	printField(debugger, field, ip.getPos(), s, d, &ip);
 	return DEFUNGE_OK;
 }
diff --git a/src/include/Defunge.h b/src/include/Defunge.h
index 0c43b10..17a5685 100644
--- a/src/include/Defunge.h
+++ b/src/include/Defunge.h
@@ -39,6 +39,7 @@ class Defunge {
 
 		void debugWrite(const Field& field, const Vector& pos, inst_t inst);
 		void printIP(const FungeRunner& ip);
+		bool isPlane(const Vector& dim, size_t dimensions) const;
 		void printField(FungeDebugger* dbg, const Field& field, const Vector& center, const Vector& size, const Vector& dim, const InstructionPointer* ip);
 
 		Error runCommand(std::istringstream& iss);
-- 
2.43.0


From 960357a22fd161e77c6a437f171f02d33471a43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:13 +0000
Subject: [PATCH 74/88] fix: the dimensions stated by a BeQunge or funge-lib
 file were ignored

---
 src/Field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index b685cbf..0a6a499 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -34,7 +34,7 @@ Field::Field(std::istream& file, FileFormat fmt, size_t dim, FungeCell csize) :
 			parseFungeLib(file);
 			break;
 	}
-	if(dim == 0){
+	if(dimensions == 0){
 		dimensions = maxs.size();
 	}
 }
-- 
2.43.0


From 57d6b2cff04b2b08dcde15aa30c35babaf5a35c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:13 +0000
Subject: [PATCH 75/88] fix: loading a BeQunge file with fewer lines than it
 states could take forever

---
 src/Field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index 0a6a499..e5d2e83 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -147,7 +147,7 @@ void Field::parseBeq(std::istream& file){
 		}
 		if(lines > 0){
 			Vector pos(origin);
-			for(size_t i = 0; i < lines; ++i){
+			for(size_t i = 0; i < lines && file.good(); ++i){
 				std::getline(file, line);
 				for(auto c : line){
 					put(pos, c);
-- 
2.43.0


From ce609af395b077180a4a154215c4d1c8d0d5f0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:13 +0000
Subject: [PATCH 76/88] fix: a malformed directive of a BeQunge file ended the
 interpreter

---
 src/Field.cpp | 48 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index e5d2e83..aeca09a 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -109,6 +109,28 @@ std::vector<std::string> splitString(std::string str, char delim){
 	return ret;
 }
 
+/// Read a whole string as a number.
+static bool parseNumber(const std::string& str, dim_t& num){
+	std::istringstream iss(str);
+	iss >> num;
+	return !iss.fail() && (iss.eof() || (iss >> std::ws).eof());
+}
+
+/// Read coordinates separated by colons into v, starting with dimension dim.
+static bool parseCoords(const std::string& str, size_t& dim, Vector& v){
+	for(auto c : splitString(str, ':')){
+		if(c.size() > 0){
+			dim_t num = 0;
+			if(!parseNumber(c, num)){
+				return false;
+			}
+			v.set(dim, num);
+		}
+		++dim;
+	}
+	return true;
+}
+
 void Field::parseBeq(std::istream& file){
 	size_t dims = 0;
 	while(file.good()){
@@ -120,29 +142,29 @@ void Field::parseBeq(std::istream& file){
 		size_t dim = 0;
 		for(auto c : ctrl){
 			auto cmd = splitString(c, ' ');
+			cmd.resize(2);
+			dim_t num = 0;
+			bool valid = true;
 			if(cmd[0] == "Version"){
 				// ok
 			}else if(cmd[0] == "Dimensions"){
+				valid = parseNumber(cmd[1], num) && num >= 0;
 				if(dims == 0){
-					dims = std::stoul(cmd[1]);
+					dims = valid ? num : 0;
 				}else{
 					std::cerr << "Unexpected dimensions" << std::endl;
 				}
 			}else if(cmd[0] == "Lines"){
-				lines = std::stoul(cmd[1]);
+				valid = parseNumber(cmd[1], num) && num >= 0;
+				lines = valid ? num : 0;
 			}else if(cmd[0] == "Origin"){
-				auto orig = splitString(cmd[1], ':');
-				for(dim = 0; dim < orig.size(); ++dim){
-					origin.set(dim, std::stoi(orig[dim]));
-				}
+				dim = 0;
+				valid = parseCoords(cmd[1], dim, origin);
 			}else if(cmd[0] == "Coord"){
-				auto orig = splitString(cmd[1], ':');
-				size_t start = dim;
-				for( ; dim < orig.size()+start; ++dim){
-					if(orig[dim-start].size() > 0){
-						origin.set(dim, std::stoi(orig[dim-start]));
-					}
-				}
+				valid = parseCoords(cmd[1], dim, origin);
+			}
+			if(!valid){
+				std::cerr << "Invalid directive \"" << c << "\"" << std::endl;
 			}
 		}
 		if(lines > 0){
-- 
2.43.0


From e91c28511929fd0b3c7e88d686706cf952232b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:28 +0000
Subject: [PATCH 77/88] fix: NFUN ended the interpreter for dimensions that
 cannot be represented

---
 src/fingerprint/FingerprintNFUN.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/fingerprint/FingerprintNFUN.cpp b/src/fingerprint/FingerprintNFUN.cpp
index e8352b5..5895671 100644
--- a/src/fingerprint/FingerprintNFUN.cpp
+++ b/src/fingerprint/FingerprintNFUN.cpp
@@ -9,6 +9,9 @@
 
 namespace Funge {
 
+/// Number of dimensions that can be represented.
+static constexpr stack_t MAX_DIMENSIONS = 65536;
+
 FingerprintNFUN::FingerprintNFUN(FungeRunner& r) :
 	Fingerprint(r,
 			{'A', 'C', 'D', 'H', 'I', 'L', 'M', 'R', 'V', 'X', 'Y', 'Z'})
@@ -75,7 +78,7 @@ FungeError FingerprintNFUN::execute(inst_t cmd){
 		} break;
 		case 'X':{
 			stack_t n = stack.top().pop();
-			if(n < 0){
+			if(n < 0 || n >= MAX_DIMENSIONS){
 				return ERROR_UNSPEC;
 			}
 			Vector v;
@@ -89,7 +92,7 @@ FungeError FingerprintNFUN::execute(inst_t cmd){
 		} break;
 		case 'Y':{
 			stack_t n = stack.top().pop();
-			if(n < 0){
+			if(n < 0 || n >= MAX_DIMENSIONS){
 				return ERROR_UNSPEC;
 			}
 			Vector v;
@@ -99,7 +102,7 @@ FungeError FingerprintNFUN::execute(inst_t cmd){
 		} break;
 		case 'Z':{
 			stack_t n = stack.top().pop();
-			if(n < 0){
+			if(n < 0 || n >= MAX_DIMENSIONS){
 				return ERROR_UNSPEC;
 			}
 			Vector v;
-- 
2.43.0


From 0ceb2884d90eae7bb222a2289901381292eef01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:56 +0000
Subject: [PATCH 78/88] fix: NFUN changed the number of dimensions while other
 threads read it

---
 src/FungeUniverse.cpp       | 13 ++++++++-----
 src/include/FungeUniverse.h |  1 +
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index 06cb4fa..0326913 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -17,6 +17,7 @@ FungeUniverse::FungeUniverse(std::istream& file, Field::FileFormat fmt, const Fu
 	exitcode(0),
 	config(cfg),
 	mode(cfg.mode),
+	dims(cfg.dimensions),
 	debug(*this),
 	field(file, fmt, cfg.dimensions, cfg.cells),
 	thread(nullptr),
@@ -29,7 +30,7 @@ FungeUniverse::FungeUniverse(std::istream& file, Field::FileFormat fmt, const Fu
 {
 	thread = new std::thread(std::ref(*this));
 	if(cfg.dimensions == 0){
-		config.dimensions = field.size();
+		dims = field.size();
 	}
 }
 
@@ -38,6 +39,7 @@ FungeUniverse::FungeUniverse(const FungeConfig& cfg):
 	exitcode(0),
 	config(cfg),
 	mode(cfg.mode),
+	dims(cfg.dimensions),
 	debug(*this),
 	field(cfg.dimensions, cfg.cells),
 	thread(nullptr),
@@ -50,7 +52,7 @@ FungeUniverse::FungeUniverse(const FungeConfig& cfg):
 {
 	thread = new std::thread(std::ref(*this));
 	if(cfg.dimensions == 0){
-		config.dimensions = field.size();
+		dims = field.size();
 	}
 }
 
@@ -264,10 +266,11 @@ FungeRunner* FungeUniverse::getRunner(size_t id){
 }
 
 size_t FungeUniverse::dimensions(size_t d){
-	if(d > 0){
-		config.dimensions = d;
+	size_t cur = dims;
+	while(cur < d && !dims.compare_exchange_weak(cur, d)){
+		// another thread changed it
 	}
-	return config.dimensions;
+	return dims;
 }
 
 FungeStandard FungeUniverse::standard() const {
diff --git a/src/include/FungeUniverse.h b/src/include/FungeUniverse.h
index 848dacd..e8c2718 100644
--- a/src/include/FungeUniverse.h
+++ b/src/include/FungeUniverse.h
@@ -135,6 +135,7 @@ class FungeUniverse {
 		std::atomic<int> exitcode;
 		FungeConfig config;
 		std::atomic<FungeMode> mode;
+		std::atomic<size_t> dims;
 		FungeDebugger debug;
 		Field field;
 		std::thread* thread;
-- 
2.43.0


From 832537a1cdfe17386df681aa665950b2a4b95c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:59 +0000
Subject: [PATCH 79/88] fix: ] in a called *><> function removed a register
 that did not exist

Calls create a stack, but did not create its register.
---
 src/StarfishStrategy.cpp   | 7 +++++++
 src/include/FishStrategy.h | 1 +
 2 files changed, 8 insertions(+)

diff --git a/src/StarfishStrategy.cpp b/src/StarfishStrategy.cpp
index dcd9a47..b7cd3c9 100644
--- a/src/StarfishStrategy.cpp
+++ b/src/StarfishStrategy.cpp
@@ -56,6 +56,10 @@ FungeError StarfishStrategy::instructionFisherman(){
 FungeError StarfishStrategy::instructionCall(){
 	stack.insert(selected+1);
 	pushVector(SECOND, ip.getPos());
+	// Every stack has a register
+	reg top = regs.top();
+	regs.top() = {false, 0};
+	regs.push(top);
 
 	check_stack(top, runner.getUniverse().dimensions());
 	Vector v = popVector(TOP);
@@ -71,6 +75,9 @@ FungeError StarfishStrategy::instructionReturn(){
 	Vector v = popVector(SECOND);
 	ip.setPos(v);
 	stack.remove(selected+1);
+	reg top = regs.top();
+	regs.pop();
+	regs.top() = top;
 	return ERROR_NONE;
 }
 
diff --git a/src/include/FishStrategy.h b/src/include/FishStrategy.h
index 3c84ec3..cc1829b 100644
--- a/src/include/FishStrategy.h
+++ b/src/include/FishStrategy.h
@@ -91,6 +91,7 @@ class FishStrategy : public FungeStrategy {
 
 		FungeError errorHandler(FungeError e);
 
+	protected:
 		struct reg {
 			bool set;
 			double value;
-- 
2.43.0


From 211891bd702f8aaccd4d4e7c0d1de65b218ca3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:26 +0000
Subject: [PATCH 80/88] fix: ( could load a file outside of the fingerprint
 directory

Zeros and slashes in the fingerprint changed the path that was opened.
---
 src/fingerprint/FingerprintFungeLib.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fingerprint/FingerprintFungeLib.cpp b/src/fingerprint/FingerprintFungeLib.cpp
index 86594da..9d5c8e3 100644
--- a/src/fingerprint/FingerprintFungeLib.cpp
+++ b/src/fingerprint/FingerprintFungeLib.cpp
@@ -23,6 +23,11 @@ FingerprintFungeLib::FingerprintFungeLib(FungeRunner& r, std::istream& file, Fun
 }
 
 FingerprintFungeLib* FingerprintFungeLib::factory(FungeRunner& r, const std::string& name){
+	// The name must name a file in the directory of the fingerprints
+	if(name.find('/') != std::string::npos || name.find('\0') != std::string::npos){
+		return nullptr;
+	}
+
 	std::filesystem::path fl = std::filesystem::canonical("/proc/self/exe").parent_path();
 	fl /= "..";
 	fl /= "fing";
-- 
2.43.0


From 5f38cc99a660952afdb65194000b453bb0ccfd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:36 +0000
Subject: [PATCH 81/88] fix: TOYS copied and filled one line for a region
 without lines

Trailing zeros of the size were not seen as zero sizes.
---
 src/fingerprint/FingerprintTOYS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fingerprint/FingerprintTOYS.cpp b/src/fingerprint/FingerprintTOYS.cpp
index a7fd4dd..4703152 100644
--- a/src/fingerprint/FingerprintTOYS.cpp
+++ b/src/fingerprint/FingerprintTOYS.cpp
@@ -274,7 +274,7 @@ void FingerprintTOYS::copySpace(const Vector& src, const Vector& sz, const Vecto
 }
 
 bool FingerprintTOYS::sizeToRange(Vector& size){
-	for(size_t d = 0; d < size.size(); ++d){
+	for(size_t d = 0; d < runner.getUniverse().dimensions(); ++d){
 		dim_t s = size.get(d);
 		if(s > 0){
 			size.set(d, s-1);
-- 
2.43.0


From 79c2f57a856c90ceb9d79c3b787dc7bf3ac4be13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:46 +0000
Subject: [PATCH 82/88] fix: a chain of k instructions overflowed the call
 stack

Each iterated k nested another call, so a program could end the
interpreter with enough of them. They are kept in a list instead.
---
 src/Unefunge98Strategy.cpp       | 24 +++++++++++++++++++-----
 src/include/Unefunge98Strategy.h |  1 +
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/Unefunge98Strategy.cpp b/src/Unefunge98Strategy.cpp
index 7d222d0..94202fa 100644
--- a/src/Unefunge98Strategy.cpp
+++ b/src/Unefunge98Strategy.cpp
@@ -18,6 +18,7 @@ namespace Funge {
 
 Unefunge98Strategy::Unefunge98Strategy(FungeRunner& r) :
 	FungeStrategy(r),
+	iterations(),
 	finger(r)
 {
 	init();
@@ -25,6 +26,7 @@ Unefunge98Strategy::Unefunge98Strategy(FungeRunner& r) :
 
 Unefunge98Strategy::Unefunge98Strategy(const Unefunge98Strategy& orig, FungeRunner& r) :
 	FungeStrategy(r),
+	iterations(),
 	finger(orig.finger, r)
 {
 	init();
@@ -130,15 +132,27 @@ FungeError Unefunge98Strategy::instructionIterate(){
 	Vector found = ip.getPos();
 	ip.setPos(v);
 	int k = stack.top().pop();
-	for(int i = 0; i < k; i++){
-		FungeError err = runner.execute(c);
+	if(k == 0){
+		ip.setPos(found);
+		return ERROR_NONE;
+	}
+	// An iterated k adds to the list instead of nesting calls
+	const bool nested = !iterations.empty();
+	iterations.push_back({c, k});
+	if(nested){
+		return ERROR_NONE;
+	}
+	while(!iterations.empty()){
+		if(iterations.back().second <= 0){
+			iterations.pop_back();
+			continue;
+		}
+		--iterations.back().second;
+		FungeError err = runner.execute(iterations.back().first);
 		if(err != ERROR_NONE && err != ERROR_SKIP && err != ERROR_BLOCK){
 			ip.reflect();
 		}
 	}
-	if(k == 0){
-		ip.setPos(found);
-	}
 	return ERROR_NONE;
 }
 
diff --git a/src/include/Unefunge98Strategy.h b/src/include/Unefunge98Strategy.h
index d82e647..6551479 100644
--- a/src/include/Unefunge98Strategy.h
+++ b/src/include/Unefunge98Strategy.h
@@ -50,6 +50,7 @@ class Unefunge98Strategy : public FungeStrategy {
 		FungeError instructionUnload();
 
 		void pushSysInfo(stack_t num);
+		std::vector<std::pair<inst_t, int>> iterations;
 		FingerprintStrategy finger;
 };
 
-- 
2.43.0


From da371ae8a87d53b29adf5ee52f2acf91ceb52408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:14 +0000
Subject: [PATCH 83/88] fix: SUBR J skipped the first instruction at its target

C starts at the given position, J started one cell after it.
---
 src/fingerprint/FingerprintSUBR.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fingerprint/FingerprintSUBR.cpp b/src/fingerprint/FingerprintSUBR.cpp
index f20d08f..c89d607 100644
--- a/src/fingerprint/FingerprintSUBR.cpp
+++ b/src/fingerprint/FingerprintSUBR.cpp
@@ -45,7 +45,7 @@ FungeError FingerprintSUBR::execute(inst_t cmd){
 			if(offset){
 				va += ip.getPos();
 			}
-			ip.setPos(va);
+			ip.setPos(va-Vector{1});
 			ip.setDelta(Vector{1});
 		} break;
 		case 'O':{
-- 
2.43.0


From c3b66c8051775657127ce45aaa3c91b866b05e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:05 +0000
Subject: [PATCH 84/88] fix: BASE I overflowed the call stack on a long number

Every digit nested another call with a copy of the rest of the input.
---
 src/fingerprint/FingerprintBASE.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/fingerprint/FingerprintBASE.cpp b/src/fingerprint/FingerprintBASE.cpp
index d984d3e..13053af 100644
--- a/src/fingerprint/FingerprintBASE.cpp
+++ b/src/fingerprint/FingerprintBASE.cpp
@@ -146,19 +146,19 @@ bool FingerprintBASE::readBase(std::string str, stack_t* num, unsigned int base)
 	if(base <= 36){
 		std::transform(str.begin(), str.end(), str.begin(), ::toupper);
 	}
-	char digit = str[0];
-	bool found = false;
-	for(size_t i = 0; i < base; ++i){
-		if(digit_map[i] == digit){
-			*num = (*num*base) + i;
-			found = true;
+	for(char digit : str){
+		bool found = false;
+		for(size_t i = 0; i < base; ++i){
+			if(digit_map[i] == digit){
+				*num = (*num*base) + i;
+				found = true;
+				break;
+			}
+		}
+		if(!found){
 			break;
 		}
 	}
-	if(found && str.size() > 1){
-		str.erase(0, 1);
-		readBase(str, num, base);
-	}
 	return true;
 }
 
-- 
2.43.0


From de68c2ec99e03ccdceda16ca011259011d9ed51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:26 +0000
Subject: [PATCH 85/88] fix: PERL let the shell expand dollar signs and
 backquotes in the Perl text

---
 src/fingerprint/FingerprintPERL.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/fingerprint/FingerprintPERL.cpp b/src/fingerprint/FingerprintPERL.cpp
index 77eda37..69b9663 100644
--- a/src/fingerprint/FingerprintPERL.cpp
+++ b/src/fingerprint/FingerprintPERL.cpp
@@ -7,7 +7,6 @@
 #include "FingerprintPERL.h"
 #include "FungeUtilities.h"
 #include "FungeUniverse.h"
-#include <iomanip>
 
 namespace Funge {
 
@@ -44,10 +43,16 @@ FungeError FingerprintPERL::execute(inst_t cmd){
 }
 
 int FingerprintPERL::perl(const std::string& code){
-	std::string cmd = std::string("exit(eval{") + code + std::string("})");
-	std::stringstream sq;
-	sq << std::quoted(cmd);
-	cmd = std::string("perl -e ") + sq.str();
+	// Within single quotes the shell expands nothing
+	std::string cmd = "perl -e 'exit(eval{";
+	for(char c : code){
+		if(c == '\''){
+			cmd += "'\\''";
+		}else{
+			cmd += c;
+		}
+	}
+	cmd += "})'";
 	return system(cmd.c_str()) >> 8;
 }
 
-- 
2.43.0


From 233cd905c1dd8616bf21ecd19fdf040ec7ccf8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:42 +0000
Subject: [PATCH 86/88] fix: the debugger kept a pointer to an IP that had
 moved to another universe

---
 src/FungeDebugger.cpp | 6 +++---
 src/FungeUniverse.cpp | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/FungeDebugger.cpp b/src/FungeDebugger.cpp
index a68401b..d95f979 100644
--- a/src/FungeDebugger.cpp
+++ b/src/FungeDebugger.cpp
@@ -29,12 +29,12 @@ void FungeDebugger::tick(FungeRunner& runner){
 		intro(runner);
 		size_t id = runner.getID();
 		auto found = threads.find(id);
-		if(found == threads.end()){
-			threads.insert({id, Thread{
+		if(found == threads.end() || found->second.state == STATE_END){
+			threads.insert_or_assign(id, Thread{
 				.runner = &runner,
 				.backtrace = {},
 				.state = FungeDebugger::STATE_START,
-			}});
+			});
 			std::cout << "New IP " << id << std::endl;
 		}
 		lastThread = id;
diff --git a/src/FungeUniverse.cpp b/src/FungeUniverse.cpp
index 0326913..0e0fee1 100644
--- a/src/FungeUniverse.cpp
+++ b/src/FungeUniverse.cpp
@@ -112,6 +112,7 @@ void FungeUniverse::transferRunner(FungeRunner* runner){
 void FungeUniverse::removeRunner(FungeRunner* runner){
 	std::lock_guard<std::mutex> guard(mutex);
 	runners.remove(runner);
+	debug.endThread(*runner);
 	cv.notify_all();
 }
 
-- 
2.43.0


From db72c0ea2e0b1b5d29c545a68d3f267b017ea104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:42 +0000
Subject: [PATCH 87/88] fix: a watched cell written from another universe
 stopped an IP that did not exist

---
 src/FungeDebugger.cpp       | 20 ++++++++++++--------
 src/include/FungeDebugger.h |  2 +-
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/FungeDebugger.cpp b/src/FungeDebugger.cpp
index d95f979..95124af 100644
--- a/src/FungeDebugger.cpp
+++ b/src/FungeDebugger.cpp
@@ -26,7 +26,7 @@ FungeDebugger::FungeDebugger(FungeUniverse& uni) :
 
 void FungeDebugger::tick(FungeRunner& runner){
 	if(runner.isMode(FUNGE_MODE_DEBUG)){
-		intro(runner);
+		intro();
 		size_t id = runner.getID();
 		auto found = threads.find(id);
 		if(found == threads.end() || found->second.state == STATE_END){
@@ -54,7 +54,7 @@ void FungeDebugger::tick(FungeRunner& runner){
 }
 void FungeDebugger::swbreak(FungeRunner& runner){
 	if(runner.isMode(FUNGE_MODE_DEBUG)){
-		intro(runner);
+		intro();
 		std::cout << "Software Breakpoint " << runner.getIP().getPos() << std::endl;
 		threads[lastThread].state = STATE_BREAK;
 		Defunge::getInstance().debug(this, &runner);
@@ -63,7 +63,7 @@ void FungeDebugger::swbreak(FungeRunner& runner){
 
 void FungeDebugger::trap(FungeRunner& runner){
 	if(runner.isMode(FUNGE_MODE_DEBUG)){
-		intro(runner);
+		intro();
 		std::cout << "Exception Trapped " << runner.getIP().getPos() << std::endl;
 		threads[lastThread].state = STATE_BREAK;
 		Defunge::getInstance().debug(this, &runner);
@@ -73,13 +73,17 @@ void FungeDebugger::trap(FungeRunner& runner){
 void FungeDebugger::debugWrite(const Vector& pos, inst_t inst){
 	if(universe.isMode(FUNGE_MODE_DEBUG)){
 		if(watchpoints.contains(pos)){
-			threads[lastThread].state = STATE_BREAK;
-			intro(*threads[lastThread].runner);
+			intro();
 			std::cout << "Watchpoint " << pos << std::endl;
 			inst_t old = universe.getField().get(pos);
 			std::cout << "Old value = (" << old  << ") \"" << static_cast<char>(old) << "\"" << std::endl;
 			std::cout << "New value = (" << inst << ") \"" << static_cast<char>(inst) << "\"" << std::endl;
-			Defunge::getInstance().debug(this, threads[lastThread].runner);
+			// The write may come from another universe, while there is no IP here
+			auto last = threads.find(lastThread);
+			if(last != threads.end() && last->second.state != STATE_END){
+				last->second.state = STATE_BREAK;
+				Defunge::getInstance().debug(this, last->second.runner);
+			}
 		}
 	}
 }
@@ -105,12 +109,12 @@ void FungeDebugger::endThread(const FungeRunner& runner){
 	threads[runner.getID()].state = STATE_END;
 }
 
-void FungeDebugger::intro(FungeRunner& runner){
+void FungeDebugger::intro(){
 	static bool first = true;
 
 	if(first){
 		std::cout << "Funge++ Debugger" << std::endl;
-		for(auto arg : runner.getUniverse().arguments()){
+		for(auto arg : universe.arguments()){
 			std::cout << arg << " ";
 		}
 		std::cout << std::endl;
diff --git a/src/include/FungeDebugger.h b/src/include/FungeDebugger.h
index 44812df..0994993 100644
--- a/src/include/FungeDebugger.h
+++ b/src/include/FungeDebugger.h
@@ -46,7 +46,7 @@ class FungeDebugger {
 			State state;
 		};
 		
-		void intro(FungeRunner& runner);
+		void intro();
 		void debugWrite(const Vector& pos, inst_t inst);
 
 		FungeUniverse& universe;
-- 
2.43.0


From bc0749f450c02193813311e9654514a6b7d0155d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:58 +0000
Subject: [PATCH 88/88] fix: DBUG instructions worked on the debugger of the
 universe they were loaded in

---
 src/fingerprint/FingerprintDBUG.cpp       | 16 ++++++----------
 src/fingerprint/include/FingerprintDBUG.h |  5 -----
 2 files changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/fingerprint/FingerprintDBUG.cpp b/src/fingerprint/FingerprintDBUG.cpp
index a3ef965..9081893 100644
--- a/src/fingerprint/FingerprintDBUG.cpp
+++ b/src/fingerprint/FingerprintDBUG.cpp
@@ -11,23 +11,19 @@
 namespace Funge {
 
 FingerprintDBUG::FingerprintDBUG(FungeRunner& r) :
-	Fingerprint(r, {'A', 'B', 'D', 'E', 'W'}),
-	dbg(nullptr)
+	Fingerprint(r, {'A', 'B', 'D', 'E', 'W'})
 {}
 
-void FingerprintDBUG::activate(){
-	dbg = &runner.getUniverse().getDebugger();
-	Fingerprint::activate();
-}
-
 FungeError FingerprintDBUG::execute(inst_t cmd){
+	// The IP may have moved to another universe
+	FungeDebugger& dbg = runner.getUniverse().getDebugger();
 	switch(cmd){
 		case 'A':{
 			Vector v = popVector(runner);
-			dbg->addBreakpoint(v);
+			dbg.addBreakpoint(v);
 		} break;
 		case 'B':{
-			dbg->swbreak(runner);
+			dbg.swbreak(runner);
 		} break;
 		case 'D':{
 			runner.getUniverse().clearMode(FUNGE_MODE_DEBUG);
@@ -37,7 +33,7 @@ FungeError FingerprintDBUG::execute(inst_t cmd){
 		} break;
 		case 'W':{
 			Vector v = popVector(runner);
-			dbg->addWatchpoint(v);
+			dbg.addWatchpoint(v);
 		} break;
 		default:
 			return ERROR_UNIMP;
diff --git a/src/fingerprint/include/FingerprintDBUG.h b/src/fingerprint/include/FingerprintDBUG.h
index fcbb714..7a92810 100644
--- a/src/fingerprint/include/FingerprintDBUG.h
+++ b/src/fingerprint/include/FingerprintDBUG.h
@@ -19,11 +19,6 @@ class FingerprintDBUG : public Fingerprint {
 		virtual ~FingerprintDBUG() = default;
 		
 		virtual FungeError execute(inst_t cmd) override;
-
-		virtual void activate() override;
-	
-	private:
-		FungeDebugger* dbg;
 };
 
 }
-- 
2.43.0

