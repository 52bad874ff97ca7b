From 7761fbb7f98bdb2a6731cf020a58972b1f2f928b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:04 +0000
Subject: [PATCH 01/27] fix: return the learned clause from learnClause

learnClause is declared to return Clause* but fell off its end, which is
undefined behaviour: with optimization (the README's -O3 build) every search
that learns a clause crashed.
---
 bitvec/Formula.cc | 1 +
 src/Formula.cc    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index 7d23ad9..24238de 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -369,6 +369,7 @@ Clause* Formula::learnClause ( Clause * clause ) {
 			VARLIST[i] -> VSIDS_SCORE[j] /=2;
 		}
 	}
+	return clause;
 }
 
 // Corresponding functions for watched literals version of the algorithm:
diff --git a/src/Formula.cc b/src/Formula.cc
index 289c321..d3edfeb 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -832,6 +832,7 @@ Clause* Formula::learnClause ( Clause * clause ) {
 			}
 		}
 	}
+	return clause;
 }
 
 int Formula::backtrackLevel ( Clause * learnedClause ) {
-- 
2.43.0


From f176f64ecd0ec4cb4342a1e5ee078b856beaea07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:17 +0000
Subject: [PATCH 02/27] fix: do not store a literal twice in one input clause

A clause that starts with a repeated literal (as in the file 'example') had
both watches on the same literal; when it was falsified the -wl search took
the clause for a conflict although other literals were open, and could answer
UNSAT for a satisfiable formula.
---
 src/Formula.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Formula.cc b/src/Formula.cc
index d3edfeb..f3e2d7f 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -144,6 +144,9 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 					{
 						//add it to clause_list's atom_list
 						temp_atom = Literal(var, ch, val);
+						//a repeated literal adds nothing, and would be watched twice
+						if(hasAtom(temp_clause, temp_atom))
+							continue;
 						temp_clause->addAtom(temp_atom);
 
 						//increment the index representing value so that
-- 
2.43.0


From 5a7ea063d0021edf2286445195625535b72ba8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:17 +0000
Subject: [PATCH 03/27] fix: assign variables that have a single domain value

---
 src/Formula.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/Formula.cc b/src/Formula.cc
index f3e2d7f..d0d97c5 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -213,6 +213,21 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 
 	//closing file
 	infile.close();
+
+	//a variable with a single domain value is assigned from the start:
+	//its value is entailed, and nothing else would exclude its negation
+	for(unsigned int i = 1; i < VARLIST.size() && !CONFLICT; i++)
+	{
+		if(VARLIST[i]->DOMAINSIZE == 1 && VARLIST[i]->ATOMASSIGN[0] == 0)
+		{
+			ENTAILS++;
+			UNITCLAUSE = -2;
+			if(WATCH)
+				watchedReduceTheory(Literal(i, true, 0));
+			else
+				reduceTheory(i, true, 0);
+		}
+	}
 	TIME_E = GetTime();
 }
 
-- 
2.43.0


From 1d463e906888b09816e88f8bcad858b3fad63c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:17 +0000
Subject: [PATCH 04/27] fix: read an empty clause as unsatisfiable and skip
 blank lines

---
 src/Formula.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/Formula.cc b/src/Formula.cc
index d0d97c5..5723e0f 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -119,6 +119,7 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 		else
 		{
 			char * lp = line_buffer;
+			bool blank = true;
 			do
 			{
 				char * wp = word_buffer;
@@ -136,6 +137,7 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 				//converting into int and writing to file
 				if(strlen(word_buffer) != 0)
 				{
+					blank = false;
 					sscanf(word_buffer, "%d %c %d", &var, &ch, &val);
 					if(ch == '!')
 						sscanf(word_buffer, "%d %c %c %d", &var, &ch, &ch1, &val);
@@ -181,8 +183,17 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 					}
 				}
 			}while(*lp);
+			//a blank line is not a clause
+			if(blank)
+				continue;
 			CLAUSELIST.push_back(temp_clause);
 
+			//the empty clause is falsified by every assignment
+			if (temp_clause->ATOM_LIST.empty()) {
+				CONFLICT = true;
+				CONFLICTINGCLAUSE = clause_num;
+			}
+
 			if (temp_clause->ATOM_LIST.size() == 1) {
 				UNITLIST.push_back(clause_num);
 			}
@@ -190,7 +201,7 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 			// with watched literals option, assign first two literals in the clause to watched1 and watched2
 
 
-			if ( WATCH ) {
+			if ( WATCH && ! temp_clause -> ATOM_LIST.empty() ) {
 
 				Literal watched1 = temp_clause -> ATOM_LIST[0];
 				temp_clause -> WATCHED[0] = watched1;
-- 
2.43.0


From 9867af58f1fca02eea17d895d3888e673fda7bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:38 +0000
Subject: [PATCH 05/27] fix: read input lines of any length

---
 src/Formula.cc | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/Formula.cc b/src/Formula.cc
index 5723e0f..19822b0 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -63,8 +63,9 @@ Formula::Formula ( CommandLine * cline ) {
 void Formula::BuildFormula ( CommandLine* cline ) {
 	//local variables
 	ifstream infile;
-	char line_buffer[3000];
-	char word_buffer[3000];
+	string line;
+	vector<char> line_buffer;
+	vector<char> word_buffer;
 	int clause_num = 0;
 	int atom_num = 0;
 	int var, val;
@@ -93,8 +94,10 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 
 	//now reading each line from the infile and if needed to convert
 	//then converting it and writing to outfile or just writing directly
-	while(infile.getline(line_buffer, 3000))
+	while(getline(infile, line))
 	{
+		line_buffer.assign(line.c_str(), line.c_str() + line.size() + 1);
+		word_buffer.resize(line_buffer.size());
 		temp_clause = new Clause(cline->CLAUSE_SIZE);
 		//if line is comment - just write
 		if(line_buffer[0] == 'c')
@@ -105,24 +108,24 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 		//else if line is p cnf var_num clause_num - just write
 		else if(line_buffer[0] == 'p')
 		{
-			sscanf(line_buffer, "p cnf %d %d", &var, &val);
+			sscanf(&line_buffer[0], "p cnf %d %d", &var, &val);
 
 		}
 		//else if line is d var# domsize
 		else if(line_buffer[0] == 'd')
 		{
-			sscanf(line_buffer, "d %d %d", &var, &val);
+			sscanf(&line_buffer[0], "d %d %d", &var, &val);
 			temp_var = new Variable(var, val);
 			VARLIST.push_back(temp_var);
 		}
 		//else its clause lines
 		else
 		{
-			char * lp = line_buffer;
+			char * lp = &line_buffer[0];
 			bool blank = true;
 			do
 			{
-				char * wp = word_buffer;
+				char * wp = &word_buffer[0];
 				//erasing all leading space/tabs
 				while (*lp && ((*lp == ' ') || (*lp == '\t')))
 				{
@@ -135,12 +138,12 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 				}
 				*wp = '\0';
 				//converting into int and writing to file
-				if(strlen(word_buffer) != 0)
+				if(strlen(&word_buffer[0]) != 0)
 				{
 					blank = false;
-					sscanf(word_buffer, "%d %c %d", &var, &ch, &val);
+					sscanf(&word_buffer[0], "%d %c %d", &var, &ch, &val);
 					if(ch == '!')
-						sscanf(word_buffer, "%d %c %c %d", &var, &ch, &ch1, &val);
+						sscanf(&word_buffer[0], "%d %c %c %d", &var, &ch, &ch1, &val);
 					//checking if variable = 0 i.e end of line
 					if(var != 0)
 					{
-- 
2.43.0


From 38c8c1f742da498e6ec1b5b1aa896d23c713f04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:44 +0000
Subject: [PATCH 06/27] fix: accept the documented -restarts option

---
 bitvec/Global.cc | 2 +-
 src/Global.cc    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bitvec/Global.cc b/bitvec/Global.cc
index 13de27b..1ac33e1 100644
--- a/bitvec/Global.cc
+++ b/bitvec/Global.cc
@@ -125,7 +125,7 @@ void ParseCommandLine(CommandLine * cline, int argc, char ** argv)
 		{
 			for(current = 2; current < argc; current++)
 			{
-				if (!strcmp(argv[current], "-restart"))
+				if (!strcmp(argv[current], "-restart") || !strcmp(argv[current], "-restarts"))
 					cline->RESTARTS = atoi(argv[++current]);
 				else if(!strcmp(argv[current], "-verbose"))
 					cline->LOG = true;
diff --git a/src/Global.cc b/src/Global.cc
index 666b4d3..4ff0ad0 100644
--- a/src/Global.cc
+++ b/src/Global.cc
@@ -315,7 +315,7 @@ void ParseCommandLine(CommandLine * cline, int argc, char ** argv)
 		{
 			for(current = 2; current < argc; current++)
 			{
-				if (!strcmp(argv[current], "-restart"))
+				if (!strcmp(argv[current], "-restart") || !strcmp(argv[current], "-restarts"))
 					cline->RESTARTS = atoi(argv[++current]);
 				else if(!strcmp(argv[current], "-verbose"))
 					cline->LOG = true;
-- 
2.43.0


From f76d1664c9f4f50c82ae1087262a120d1e734d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:35 +0000
Subject: [PATCH 07/27] fix: print a value for every variable in the model

---
 src/Formula.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/Formula.cc b/src/Formula.cc
index 19822b0..bafab07 100644
--- a/src/Formula.cc
+++ b/src/Formula.cc
@@ -252,6 +252,20 @@ void Formula::PrintModel()
 	{
 		if(DECSTACK[i].EQUAL) DECSTACK[i].Print();
 	}
+	//the lazy heuristics stop before every variable has a value:
+	//any value not excluded completes the model
+	for(unsigned int i = 1; i < VARLIST.size(); i++)
+	{
+		if(VARLIST[i]->VAL != -1) continue;
+		for(int j = 0; j < VARLIST[i]->DOMAINSIZE; j++)
+		{
+			if(VARLIST[i]->ATOMASSIGN[j] == 0)
+			{
+				Literal(i, true, j).Print();
+				break;
+			}
+		}
+	}
 	if (LOG) cout<<endl;
 }
 
-- 
2.43.0


From 029abe62d0f7767db18dbe1f0a9f7abd0b8e0e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:00 +0000
Subject: [PATCH 08/27] fix: keep the sign of literals on two-valued variables
 in linenc

---
 src/LinearEncode.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index cede5b9..dd1a882 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -177,7 +177,8 @@ void LinearEncode(CommandLine * cline)
 			}
 		      else
 			{
-			  if(val == 1)
+			  //one variable : true stands for value 1, false for value 0
+			  if((val == 1) == (ch != '!'))
 			    {
 			      var = index[var];
 			      outfile<<var<<" ";
-- 
2.43.0


From f0301e86976c2d0a48658b2b84af2cba9a8ae193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:00 +0000
Subject: [PATCH 09/27] fix: encode one- and two-valued variables consistently
 in linenc

---
 src/LinearEncode.cc | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index dd1a882..6c13436 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -83,8 +83,17 @@ void LinearEncode(CommandLine * cline)
 	{
 	  temp = sscanf(line_buffer, "d %d %d", &var, &val);
 	  count++;
-	  new_num_var += 2*val-1;
-	  new_num_clause += 4*(val-2)+3+1;
+	  //a variable with at most two values needs only one boolean variable
+	  if(val > 2)
+	    {
+	      new_num_var += 2*val-1;
+	      new_num_clause += 4*(val-2)+3+1;
+	    }
+	  else
+	    new_num_var++;
+	  //a single value is fixed by a unit clause
+	  if(val == 1)
+	    new_num_clause++;
 	  domain[var] = val;
 	}
       //else its variables
@@ -100,7 +109,7 @@ void LinearEncode(CommandLine * cline)
 	      index[1] = 1;
 	      for(int i=2; i<num_var+1; i++)
 		{
-		  if(domain[i-1] == 2)
+		  if(domain[i-1] <= 2)
 		    index[i] = index[i-1]+1;
 		  else
 		    index[i] = 2*domain[i-1] -1 + index[i-1];
@@ -135,10 +144,10 @@ void LinearEncode(CommandLine * cline)
 			  outfile<<var_t1<<" "<<var_t2<<" 0\n";
 			}
 		    }
-		  else
+		  else if(i > 0 && domain[i] == 1)
 		    {
-		      //do nothing
-		      ;
+		      //the only value is 0
+		      outfile<<-index[i]<<" 0"<<endl;
 		    }
 		}
 	    }
-- 
2.43.0


From dcc01823a0b4cfd9a10210cf4dfc2f77b20c66fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:00 +0000
Subject: [PATCH 10/27] fix: read the p mvcnf header in linenc and quadenc

---
 src/LinearEncode.cc    | 2 +-
 src/QuadraticEncode.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index 6c13436..199011b 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -69,7 +69,7 @@ void LinearEncode(CommandLine * cline)
       else if(line_buffer[0] == 'p')
 	{
 	  //do nothing
-	  temp = sscanf(line_buffer, "p cnf %d %d", &var, &val);
+	  temp = sscanf(line_buffer, "p %*s %d %d", &var, &val);
 	  num_var = var;
 	  num_clause = val;
 	  domain = new int[var+1];
diff --git a/src/QuadraticEncode.cc b/src/QuadraticEncode.cc
index 27e539c..a064f13 100644
--- a/src/QuadraticEncode.cc
+++ b/src/QuadraticEncode.cc
@@ -75,7 +75,7 @@ void QuadraticEncode(CommandLine * cline)
       else if(line_buffer[0] == 'p')
 	{
 	  //do nothing
-	  temp = sscanf(line_buffer, "p cnf %d %d", &var, &val);
+	  temp = sscanf(line_buffer, "p %*s %d %d", &var, &val);
 	  num_clause += val;
 	}
       //else if line is d var# domsize
-- 
2.43.0


From 6d175e7c6c260143b4f7cb1610d82f9e84a6f54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 11/27] fix: compute the quadenc clause count without
 factorials

---
 src/QuadraticEncode.cc | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/src/QuadraticEncode.cc b/src/QuadraticEncode.cc
index a064f13..460d66c 100644
--- a/src/QuadraticEncode.cc
+++ b/src/QuadraticEncode.cc
@@ -9,16 +9,6 @@
 #include <cstring>
 using namespace std;
 //**********************************************************************//
-//Factorial
-//Computes the factorial of a number
-inline int Fact(int n)
-{
-  int temp = 1;
-  for(int x=1; x<n+1; x++)
-    temp *= x;
-  return temp;
-}
-
 //QuadraticEncode
 //This function converts a finite domain file into a boolean domain
 //using the Quadratic Encoding technique
@@ -85,7 +75,7 @@ void QuadraticEncode(CommandLine * cline)
 	  temp_var = new Variable(var, val);
 	  VAR_LIST.push_back(temp_var);
 	  num_var += val;
-	  num_clause += (Fact(val)/(Fact(val-2)*Fact(2)));
+	  num_clause += val*(val-1)/2;
 	  num_clause += 1;
 	}
       //else its variables
-- 
2.43.0


From d1fc68ea589cc669e2e38af90187e95c8964c04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 12/27] fix: read input lines of any length in the converters

---
 src/Boolean2Finite.cc  | 21 ++++++++++++---------
 src/LinearEncode.cc    | 23 +++++++++++++----------
 src/QuadraticEncode.cc | 23 +++++++++++++----------
 3 files changed, 38 insertions(+), 29 deletions(-)

diff --git a/src/Boolean2Finite.cc b/src/Boolean2Finite.cc
index 89aef7b..a71cd8c 100644
--- a/src/Boolean2Finite.cc
+++ b/src/Boolean2Finite.cc
@@ -16,8 +16,9 @@ void Boolean2Finite(CommandLine * cline)
   //local variables
   ifstream infile;
   ofstream outfile;
-  char line_buffer[MAX_LINE];
-  char word_buffer[MAX_LINE];
+  string line;
+  vector<char> line_buffer;
+  vector<char> word_buffer;
   int line_num = 0;
   int variable = 0;
   set<int> variables;
@@ -47,29 +48,31 @@ void Boolean2Finite(CommandLine * cline)
 
   //now reading each line from the infile and if needed to convert
   //then converting it and writing to outfile or just writing directly
-  while(infile.getline(line_buffer, MAX_LINE))
+  while(getline(infile, line))
     {
+      line_buffer.assign(line.c_str(), line.c_str() + line.size() + 1);
+      word_buffer.resize(line_buffer.size());
       ++line_num;
       //if line is comment - just write
       if(line_buffer[0] == 'c')
 	{
-	  outfile.write(line_buffer, strlen(line_buffer));
+	  outfile.write(&line_buffer[0], strlen(&line_buffer[0]));
 	  outfile.put('\n');
 	}
       //else if line is p cnf var_num clause_num - just write
       else if(line_buffer[0] == 'p')
 	{
-	  outfile.write(line_buffer, strlen(line_buffer));
+	  outfile.write(&line_buffer[0], strlen(&line_buffer[0]));
 	  outfile.put('\n');
 	}
       //else its variables
       else
 	{
-	  char * lp = line_buffer;
+	  char * lp = &line_buffer[0];
 	  vector <int> temp;
 	  do
 	    {
-	      char * wp = word_buffer;
+	      char * wp = &word_buffer[0];
 	      //erasing all leading space/tabs
 	      while (*lp && ((*lp == ' ') || (*lp == '\t')))
 		{
@@ -82,9 +85,9 @@ void Boolean2Finite(CommandLine * cline)
 		}
 	      *wp = '\0';
 	      //converting into int and writing to file
-	      if(strlen(word_buffer) != 0)
+	      if(strlen(&word_buffer[0]) != 0)
 		{
-		  variable = atoi(word_buffer);
+		  variable = atoi(&word_buffer[0]);
 		  variables.insert(abs(variable));
 		  //checking if variable = 0 i.e end of line
 		  if(variable != 0)
diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index 199011b..c56d38e 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -19,8 +19,9 @@ void LinearEncode(CommandLine * cline)
   //local variables
   ifstream infile;
   ofstream outfile;
-  char line_buffer[3000];
-  char word_buffer[3000];
+  string line;
+  vector<char> line_buffer;
+  vector<char> word_buffer;
   int num_clause = 0;
   int num_var = 0;
   int new_num_clause = 0;
@@ -57,8 +58,10 @@ void LinearEncode(CommandLine * cline)
 
   //now reading each line from the infile and if needed to convert
   //then converting it and writing to outfile or just writing directly
-  while(infile.getline(line_buffer, 3000))
+  while(getline(infile, line))
     {
+      line_buffer.assign(line.c_str(), line.c_str() + line.size() + 1);
+      word_buffer.resize(line_buffer.size());
       //if line is comment - just write
       if(line_buffer[0] == 'c')
 	{
@@ -69,7 +72,7 @@ void LinearEncode(CommandLine * cline)
       else if(line_buffer[0] == 'p')
 	{
 	  //do nothing
-	  temp = sscanf(line_buffer, "p %*s %d %d", &var, &val);
+	  temp = sscanf(&line_buffer[0], "p %*s %d %d", &var, &val);
 	  num_var = var;
 	  num_clause = val;
 	  domain = new int[var+1];
@@ -81,7 +84,7 @@ void LinearEncode(CommandLine * cline)
       //else if line is d var# domsize
       else if(line_buffer[0] == 'd')
 	{
-	  temp = sscanf(line_buffer, "d %d %d", &var, &val);
+	  temp = sscanf(&line_buffer[0], "d %d %d", &var, &val);
 	  count++;
 	  //a variable with at most two values needs only one boolean variable
 	  if(val > 2)
@@ -152,10 +155,10 @@ void LinearEncode(CommandLine * cline)
 		}
 	    }
 
-	  char * lp = line_buffer;
+	  char * lp = &line_buffer[0];
 	  do
 	    {
-	      char * wp = word_buffer;
+	      char * wp = &word_buffer[0];
 	      //erasing all leading space/tabs
 	      while (*lp && ((*lp == ' ') || (*lp == '\t')))
 		{
@@ -168,11 +171,11 @@ void LinearEncode(CommandLine * cline)
 		}
 	      *wp = '\0';
 	      //converting into int and writing to file
-	      if(strlen(word_buffer) != 0)
+	      if(strlen(&word_buffer[0]) != 0)
 		{
-		  temp = sscanf(word_buffer, "%d %c %d", &var, &ch, &val);
+		  temp = sscanf(&word_buffer[0], "%d %c %d", &var, &ch, &val);
 		  if(ch == '!')
-		    temp = sscanf(word_buffer, "%d %c %c %d", &var, &ch, &ch1, &val);
+		    temp = sscanf(&word_buffer[0], "%d %c %c %d", &var, &ch, &ch1, &val);
 		  //checking if variable = 0 i.e end of line
 		  if(var != 0)
 		    {
diff --git a/src/QuadraticEncode.cc b/src/QuadraticEncode.cc
index 460d66c..5f43b54 100644
--- a/src/QuadraticEncode.cc
+++ b/src/QuadraticEncode.cc
@@ -17,8 +17,9 @@ void QuadraticEncode(CommandLine * cline)
   //local variables
   ifstream infile;
   ofstream outfile;
-  char line_buffer[3000];
-  char word_buffer[3000];
+  string line;
+  vector<char> line_buffer;
+  vector<char> word_buffer;
   int num_clause = 0;
   int num_var = 0;
   int var, val;
@@ -53,8 +54,10 @@ void QuadraticEncode(CommandLine * cline)
 
   //now reading each line from the infile and if needed to convert
   //then converting it and writing to outfile or just writing directly
-  while(infile.getline(line_buffer, 3000))
+  while(getline(infile, line))
     {
+      line_buffer.assign(line.c_str(), line.c_str() + line.size() + 1);
+      word_buffer.resize(line_buffer.size());
       //if line is comment - just write
       if(line_buffer[0] == 'c')
 	{
@@ -65,13 +68,13 @@ void QuadraticEncode(CommandLine * cline)
       else if(line_buffer[0] == 'p')
 	{
 	  //do nothing
-	  temp = sscanf(line_buffer, "p %*s %d %d", &var, &val);
+	  temp = sscanf(&line_buffer[0], "p %*s %d %d", &var, &val);
 	  num_clause += val;
 	}
       //else if line is d var# domsize
       else if(line_buffer[0] == 'd')
 	{
-	  temp = sscanf(line_buffer, "d %d %d", &var, &val);
+	  temp = sscanf(&line_buffer[0], "d %d %d", &var, &val);
 	  temp_var = new Variable(var, val);
 	  VAR_LIST.push_back(temp_var);
 	  num_var += val;
@@ -102,10 +105,10 @@ void QuadraticEncode(CommandLine * cline)
 		    }
 		}
 	    }
-	  char * lp = line_buffer;
+	  char * lp = &line_buffer[0];
 	  do
 	    {
-	      char * wp = word_buffer;
+	      char * wp = &word_buffer[0];
 	      //erasing all leading space/tabs
 	      while (*lp && ((*lp == ' ') || (*lp == '\t')))
 		{
@@ -118,14 +121,14 @@ void QuadraticEncode(CommandLine * cline)
 		}
 	      *wp = '\0';
 	      //converting into int and writing to file
-	      if(strlen(word_buffer) != 0)
+	      if(strlen(&word_buffer[0]) != 0)
 		{
-		  temp = sscanf(word_buffer, "%d %c %d", &var, &ch, &val);
+		  temp = sscanf(&word_buffer[0], "%d %c %d", &var, &ch, &val);
 		  if(var != 0 )
 		    {
 		      if(ch == '!')
 			{
-			  temp = sscanf(word_buffer, "%d %c %c %d", &var, &ch, &ch1, &val);
+			  temp = sscanf(&word_buffer[0], "%d %c %c %d", &var, &ch, &ch1, &val);
 			  outfile<<"-"<<var<<"="<<val<<" ";
 			}
 		      else
-- 
2.43.0


From 355775878a4a76c38d96586c9d05b97e6624d3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:26 +0000
Subject: [PATCH 13/27] fix: skip blank lines in the converters

---
 src/Boolean2Finite.cc  | 3 +++
 src/LinearEncode.cc    | 3 +++
 src/QuadraticEncode.cc | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/Boolean2Finite.cc b/src/Boolean2Finite.cc
index a71cd8c..2c881b8 100644
--- a/src/Boolean2Finite.cc
+++ b/src/Boolean2Finite.cc
@@ -53,6 +53,9 @@ void Boolean2Finite(CommandLine * cline)
       line_buffer.assign(line.c_str(), line.c_str() + line.size() + 1);
       word_buffer.resize(line_buffer.size());
       ++line_num;
+      //a blank line is not a clause
+      if(line.find_first_not_of(" \t") == string::npos)
+	continue;
       //if line is comment - just write
       if(line_buffer[0] == 'c')
 	{
diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index c56d38e..598da52 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -62,6 +62,9 @@ void LinearEncode(CommandLine * cline)
     {
       line_buffer.assign(line.c_str(), line.c_str() + line.size() + 1);
       word_buffer.resize(line_buffer.size());
+      //a blank line is not a clause
+      if(line.find_first_not_of(" \t") == string::npos)
+	continue;
       //if line is comment - just write
       if(line_buffer[0] == 'c')
 	{
diff --git a/src/QuadraticEncode.cc b/src/QuadraticEncode.cc
index 5f43b54..2794f9f 100644
--- a/src/QuadraticEncode.cc
+++ b/src/QuadraticEncode.cc
@@ -58,6 +58,9 @@ void QuadraticEncode(CommandLine * cline)
     {
       line_buffer.assign(line.c_str(), line.c_str() + line.size() + 1);
       word_buffer.resize(line_buffer.size());
+      //a blank line is not a clause
+      if(line.find_first_not_of(" \t") == string::npos)
+	continue;
       //if line is comment - just write
       if(line_buffer[0] == 'c')
 	{
-- 
2.43.0


From fe9d92e33112c3bd86a8d8db4402bb27b1eee658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:50 +0000
Subject: [PATCH 14/27] fix: declare every variable in b2f

---
 src/Boolean2Finite.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/Boolean2Finite.cc b/src/Boolean2Finite.cc
index 2c881b8..faa4197 100644
--- a/src/Boolean2Finite.cc
+++ b/src/Boolean2Finite.cc
@@ -21,6 +21,7 @@ void Boolean2Finite(CommandLine * cline)
   vector<char> word_buffer;
   int line_num = 0;
   int variable = 0;
+  int num_var = 0;
   set<int> variables;
   vector <vector<int> > data;
 
@@ -65,6 +66,7 @@ void Boolean2Finite(CommandLine * cline)
       //else if line is p cnf var_num clause_num - just write
       else if(line_buffer[0] == 'p')
 	{
+	  sscanf(&line_buffer[0], "p %*s %d", &num_var);
 	  outfile.write(&line_buffer[0], strlen(&line_buffer[0]));
 	  outfile.put('\n');
 	}
@@ -120,13 +122,13 @@ void Boolean2Finite(CommandLine * cline)
     }
 
   //now writing back the domain information
-  set<int>::iterator start = variables.begin();
-  set<int>::iterator end = variables.end();
-  end--;
-  for( ; start != end; )
+  //every variable up to the largest one is declared, used or not :
+  //the solver numbers variables in the order of their declarations
+  if(!variables.empty() && *variables.rbegin() > num_var)
+    num_var = *variables.rbegin();
+  for(int v=1; v<=num_var; v++)
     {
-      ++start;
-      outfile<<"d "<<*start<<" 2"<<endl;
+      outfile<<"d "<<v<<" 2"<<endl;
     }
 
   int ovsize = data.size();
-- 
2.43.0


From f28ef3a6e325a07624d70e8a720f5a449215b3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:55 +0000
Subject: [PATCH 15/27] fix: end b2f clause lines with 0 so that an empty
 clause is kept

---
 src/Boolean2Finite.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Boolean2Finite.cc b/src/Boolean2Finite.cc
index faa4197..1dc16ac 100644
--- a/src/Boolean2Finite.cc
+++ b/src/Boolean2Finite.cc
@@ -150,7 +150,7 @@ void Boolean2Finite(CommandLine * cline)
 	      outfile<<var<<"=1 ";
 	    }
 	}
-      outfile<<endl;
+      outfile<<"0"<<endl;
     }
   //closing file
   infile.close();
-- 
2.43.0


From 74c087ce745be46cfd347e3d0313d68a19c3559c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 16/27] fix: never generate an empty random domain

---
 src/GenBenFunc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GenBenFunc.cc b/src/GenBenFunc.cc
index 5a9b324..9eaa10d 100644
--- a/src/GenBenFunc.cc
+++ b/src/GenBenFunc.cc
@@ -56,7 +56,7 @@ void GenBenFin(CommandLine * cline)
       for(x=0; x<cline->NUM_VAR; x++)
 	{
 	  VARIABLES[x].VAR = x;
-	  VARIABLES[x].VAL = rand() % cline->DOMAIN_SIZE;
+	  VARIABLES[x].VAL = 1 + rand() % cline->DOMAIN_SIZE;
 	}
     }
 
-- 
2.43.0


From 6d24b72ec9cd1c79f8dc04ccbe0c84de97edb874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 17/27] fix: make -sat 1 boolean benchmarks satisfiable

---
 src/GenBenFunc.cc | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/GenBenFunc.cc b/src/GenBenFunc.cc
index 9eaa10d..92149c9 100644
--- a/src/GenBenFunc.cc
+++ b/src/GenBenFunc.cc
@@ -179,14 +179,7 @@ void GenBenBool(CommandLine * cline)
 	  if(cline->SAT_UNSAT && x==0)
 	    {
 	      //assigning variable to clause
-	      if(rand()%2)
-		{
-		  BCLAUSE_LIST[y][x] = BSOLN[(rand() % cline->NUM_VAR)+1];
-		}
-	      else
-		{
-		  BCLAUSE_LIST[y][x] = -1 * BSOLN[(rand() % cline->NUM_VAR)+1];
-		}
+	      BCLAUSE_LIST[y][x] = BSOLN[(rand() % cline->NUM_VAR)+1];
 	    }
 
 	  //else unsatisfiable
-- 
2.43.0


From 8fdf4136e2e9763d1ceb830799bacd25de8d19a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:33 +0000
Subject: [PATCH 18/27] fix: refuse a clause size that finite genben cannot
 satisfy

---
 src/GenBenFunc.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/GenBenFunc.cc b/src/GenBenFunc.cc
index 92149c9..a84b310 100644
--- a/src/GenBenFunc.cc
+++ b/src/GenBenFunc.cc
@@ -31,6 +31,17 @@ void GenBenFin(CommandLine * cline)
 
   srand(time(NULL));
 
+  //the variables of a clause are distinct
+  if(cline->CLAUSE_SIZE > cline->NUM_VAR)
+    {
+      cout<<endl;
+      cout<<"**** ERROR ****"<<endl;
+      cout<<" Clause size larger than the number of variables "<<endl;
+      cout<<"****       ****"<<endl;
+      cout<<endl;
+      exit(1);
+    }
+
   //Assign Memory to each global variable
   SOLN = new Literal[cline->NUM_VAR];
 
-- 
2.43.0


From adae8c225fd2359072e78728655d4b209b406b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:30 +0000
Subject: [PATCH 19/27] fix: undo to the requested level on restarts in the
 bitset solver

---
 bitvec/Formula.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index 24238de..fe34928 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -412,7 +412,7 @@ void Formula::watchedUndoTheory ( int level ) { // FIXME  fixed ?
 
 	for ( unsigned int  i = 1; i < VARLIST.size(); i++ ) {
 
-		while (!VARLIST[i]->graphNodes.empty() && VARLIST[i]->graphNodes.back().level>LEVEL) {
+		while (!VARLIST[i]->graphNodes.empty() && VARLIST[i]->graphNodes.back().level>level) {
 
 			VARLIST[i]->CURRENT_DOMAIN = VARLIST[i]->CURRENT_DOMAIN | VARLIST[i]->graphNodes.back().values;
 
-- 
2.43.0


From 7ac45c5d5238831af7beb0fe6a56f21e716e9190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:32 +0000
Subject: [PATCH 20/27] fix: handle the missing second watch of unit clauses in
 the bitset solver

---
 bitvec/Formula.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index fe34928..25c4b15 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -509,6 +509,9 @@ int Formula::sat ( Literal literal ) {
 	// computes literal -> SAT
 	// literal -> SAT == 2 unassigned, == 1 satisfied, == 0 falsified
 
+	// a unit clause has no second watched literal
+	if ( literal . VAR == -1 ) return 0;
+
 	if ( literal.isSuperset(VARLIST[literal . VAR] -> CURRENT_DOMAIN ) ) return 1; // literal is satisfied
 	else if ( literal.falsifies(VARLIST[literal . VAR] -> CURRENT_DOMAIN ) ) return 0; // falsified
 	else return 2; //  literal is undefined
-- 
2.43.0


From 6c6e172b0a3d888d958cfcf3b8ba3eef71cdaf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:35 +0000
Subject: [PATCH 21/27] fix: stop on domains the bitset solver cannot represent

---
 bitvec/Formula.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index 25c4b15..bc36d27 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -115,6 +115,7 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 
 			if (val>MAX_DOMAIN) {
 				cout << "Error: domain exceeds MAX_DOMAIN"<<endl;
+				exit(1);
 			}
 		}
 		//else its clause lines
-- 
2.43.0


From 1c87b3eba0ba58877bd5ee19559ec5b4f4cbebd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:38 +0000
Subject: [PATCH 22/27] fix: read false literals, empty clauses and blank lines
 in the bitset solver

---
 bitvec/Formula.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index bc36d27..3eb3852 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -122,6 +122,7 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 		else
 		{
 			char * lp = line_buffer;
+			bool blank = true;
 			do
 			{
 				char * wp = word_buffer;
@@ -139,6 +140,7 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 				//converting into int and writing to file
 				if(strlen(word_buffer) != 0)
 				{
+					blank = false;
 					sscanf(word_buffer, "%d %c %d", &var, &ch, &val);
 					if(ch == '!')
 						sscanf(word_buffer, "%d %c %c %d", &var, &ch, &ch1, &val);
@@ -153,6 +155,10 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 							vals.reset(val);
 						}
 
+						//a literal that no value satisfies is never watched
+						if (vals.none())
+							continue;
+
 						//add it to clause_list's atom_list
 						temp_atom = Literal(var, vals);
 						temp_clause->addAtom(temp_atom);
@@ -166,8 +172,18 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 					}
 				}
 			}while(*lp);
+			//a blank line is not a clause
+			if(blank)
+				continue;
 			CLAUSELIST.push_back(temp_clause);
 
+			//the empty clause is falsified by every assignment
+			if (temp_clause->ATOM_LIST.empty()) {
+				CONFLICT = true;
+				CONFLICTINGCLAUSE = clause_num++;
+				continue;
+			}
+
 			for (int i=0;i<temp_clause->ATOM_LIST.size();i++) {
 				Literal lit = temp_clause->ATOM_LIST[i];
 				for (int j=0;j<VARLIST[lit.VAR]->DOMAINSIZE;j++) {
-- 
2.43.0


From 1b0f21df874ab7791c9ada8d86d8a8036a90b485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:41 +0000
Subject: [PATCH 23/27] fix: read input lines of any length in the bitset
 solver

---
 bitvec/Formula.cc | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/bitvec/Formula.cc b/bitvec/Formula.cc
index 3eb3852..720f29e 100644
--- a/bitvec/Formula.cc
+++ b/bitvec/Formula.cc
@@ -61,8 +61,9 @@ Formula::Formula ( CommandLine * cline ) {
 void Formula::BuildFormula ( CommandLine* cline ) {
 	//local variables
 	ifstream infile;
-	char line_buffer[3000];
-	char word_buffer[3000];
+	string line;
+	vector<char> line_buffer;
+	vector<char> word_buffer;
 	int clause_num = 0;
 	int atom_num = 0;
 	int var, val;
@@ -91,8 +92,10 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 
 	//now reading each line from the infile and if needed to convert
 	//then converting it and writing to outfile or just writing directly
-	while(infile.getline(line_buffer, 3000))
+	while(getline(infile, line))
 	{
+		line_buffer.assign(line.c_str(), line.c_str() + line.size() + 1);
+		word_buffer.resize(line_buffer.size());
 		temp_clause = new Clause(cline->CLAUSE_SIZE);
 		//if line is comment - just write
 		if(line_buffer[0] == 'c')
@@ -103,13 +106,13 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 		//else if line is p cnf var_num clause_num - just write
 		else if(line_buffer[0] == 'p')
 		{
-			sscanf(line_buffer, "p cnf %d %d", &var, &val);
+			sscanf(&line_buffer[0], "p cnf %d %d", &var, &val);
 
 		}
 		//else if line is d var# domsize
 		else if(line_buffer[0] == 'd')
 		{
-			sscanf(line_buffer, "d %d %d", &var, &val);
+			sscanf(&line_buffer[0], "d %d %d", &var, &val);
 			temp_var = new Variable(var, val);
 			VARLIST.push_back(temp_var);
 
@@ -121,11 +124,11 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 		//else its clause lines
 		else
 		{
-			char * lp = line_buffer;
+			char * lp = &line_buffer[0];
 			bool blank = true;
 			do
 			{
-				char * wp = word_buffer;
+				char * wp = &word_buffer[0];
 				//erasing all leading space/tabs
 				while (*lp && ((*lp == ' ') || (*lp == '\t')))
 				{
@@ -138,12 +141,12 @@ void Formula::BuildFormula ( CommandLine* cline ) {
 				}
 				*wp = '\0';
 				//converting into int and writing to file
-				if(strlen(word_buffer) != 0)
+				if(strlen(&word_buffer[0]) != 0)
 				{
 					blank = false;
-					sscanf(word_buffer, "%d %c %d", &var, &ch, &val);
+					sscanf(&word_buffer[0], "%d %c %d", &var, &ch, &val);
 					if(ch == '!')
-						sscanf(word_buffer, "%d %c %c %d", &var, &ch, &ch1, &val);
+						sscanf(&word_buffer[0], "%d %c %c %d", &var, &ch, &ch1, &val);
 					//checking if variable = 0 i.e end of line
 					if(var != 0)
 					{
-- 
2.43.0


From 76b4bcf232834316e9d9d1f54329a5ee217f0a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:56 +0000
Subject: [PATCH 24/27] fix: draw boolean clauses larger than the number of
 variables

---
 src/GenBenFunc.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/GenBenFunc.cc b/src/GenBenFunc.cc
index a84b310..af94b37 100644
--- a/src/GenBenFunc.cc
+++ b/src/GenBenFunc.cc
@@ -163,6 +163,17 @@ void GenBenBool(CommandLine * cline)
   int ** BCLAUSE_LIST;
   srand(time(NULL));
 
+  //the literals of a clause are distinct
+  if(cline->CLAUSE_SIZE > 2 * cline->NUM_VAR)
+    {
+      cout<<endl;
+      cout<<"**** ERROR ****"<<endl;
+      cout<<" Clause size larger than the number of literals "<<endl;
+      cout<<"****       ****"<<endl;
+      cout<<endl;
+      exit(1);
+    }
+
   //Assign Memory to each global variable
   BSOLN = new int[cline->NUM_VAR+1];
 
@@ -214,6 +225,8 @@ void GenBenBool(CommandLine * cline)
 		      if(BCLAUSE_LIST[y][x] == BCLAUSE_LIST[y][z])
 			{
 			  BCLAUSE_LIST[y][x] = (rand() % cline->NUM_VAR) + 1;
+			  if(rand()%2)
+			    BCLAUSE_LIST[y][x] *= -1;
 			  already_exist = true;
 			}
 		      else
-- 
2.43.0


From 4c52ae697c28c359c82c263f32b45127ae3c8881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:34 +0000
Subject: [PATCH 25/27] fix: encode the domains of a problem without clauses

---
 src/LinearEncode.cc    | 10 ++++++++--
 src/QuadraticEncode.cc | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/LinearEncode.cc b/src/LinearEncode.cc
index 598da52..37f8016 100644
--- a/src/LinearEncode.cc
+++ b/src/LinearEncode.cc
@@ -31,6 +31,7 @@ void LinearEncode(CommandLine * cline)
   int var, val;
   int temp;
   bool isdone = false;
+  bool atend = false;
   int count = 0;
   char ch, ch1;
 
@@ -58,12 +59,15 @@ void LinearEncode(CommandLine * cline)
 
   //now reading each line from the infile and if needed to convert
   //then converting it and writing to outfile or just writing directly
-  while(getline(infile, line))
+  //a problem without clauses still has its domains to encode
+  while(getline(infile, line) || (atend = !isdone && num_var > 0))
     {
+      if(atend)
+	line.clear();
       line_buffer.assign(line.c_str(), line.c_str() + line.size() + 1);
       word_buffer.resize(line_buffer.size());
       //a blank line is not a clause
-      if(line.find_first_not_of(" \t") == string::npos)
+      if(!atend && line.find_first_not_of(" \t") == string::npos)
 	continue;
       //if line is comment - just write
       if(line_buffer[0] == 'c')
@@ -158,6 +162,8 @@ void LinearEncode(CommandLine * cline)
 		}
 	    }
 
+	  if(atend)
+	    break;
 	  char * lp = &line_buffer[0];
 	  do
 	    {
diff --git a/src/QuadraticEncode.cc b/src/QuadraticEncode.cc
index 2794f9f..d3062c2 100644
--- a/src/QuadraticEncode.cc
+++ b/src/QuadraticEncode.cc
@@ -25,6 +25,7 @@ void QuadraticEncode(CommandLine * cline)
   int var, val;
   int temp;
   bool isdone = false;
+  bool atend = false;
   bool isneg = false;
   Variable * temp_var;
   vector <Variable *> VAR_LIST;
@@ -54,12 +55,15 @@ void QuadraticEncode(CommandLine * cline)
 
   //now reading each line from the infile and if needed to convert
   //then converting it and writing to outfile or just writing directly
-  while(getline(infile, line))
+  //a problem without clauses still has its domains to encode
+  while(getline(infile, line) || (atend = !isdone && !VAR_LIST.empty()))
     {
+      if(atend)
+	line.clear();
       line_buffer.assign(line.c_str(), line.c_str() + line.size() + 1);
       word_buffer.resize(line_buffer.size());
       //a blank line is not a clause
-      if(line.find_first_not_of(" \t") == string::npos)
+      if(!atend && line.find_first_not_of(" \t") == string::npos)
 	continue;
       //if line is comment - just write
       if(line_buffer[0] == 'c')
@@ -108,6 +112,8 @@ void QuadraticEncode(CommandLine * cline)
 		    }
 		}
 	    }
+	  if(atend)
+	    break;
 	  char * lp = &line_buffer[0];
 	  do
 	    {
-- 
2.43.0


From 65adc8db09d4b4601b9769801d3d9eb53f7500ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:03 +0000
Subject: [PATCH 26/27] fix: leave the help menu at the end of input

---
 bitvec/Global.cc | 3 ++-
 src/Global.cc    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bitvec/Global.cc b/bitvec/Global.cc
index 1ac33e1..dfc3a42 100644
--- a/bitvec/Global.cc
+++ b/bitvec/Global.cc
@@ -45,7 +45,8 @@ void PrintHelp()
 		cout<<" (0) Quit"<<endl;
 		cout<<endl;
 		cout<<" Enter Choice now : ";
-		cin>>option;
+		if(!(cin>>option)) //not a number, or no input left
+			option = 0;
 		cout<<endl;
 
 		//Start Printing messages based on option
diff --git a/src/Global.cc b/src/Global.cc
index 4ff0ad0..a6b74a3 100644
--- a/src/Global.cc
+++ b/src/Global.cc
@@ -50,7 +50,8 @@ void PrintHelp()
 		cout<<" (0) Quit"<<endl;
 		cout<<endl;
 		cout<<" Enter Choice now : ";
-		cin>>option;
+		if(!(cin>>option)) //not a number, or no input left
+			option = 0;
 		cout<<endl;
 
 		//Start Printing messages based on option
-- 
2.43.0


From a305b9c8b798bcdd7757ae9f664c421da6b1c7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:03 +0000
Subject: [PATCH 27/27] fix: report a command line option without its number

---
 bitvec/Global.cc | 22 +++++++++++++++++-----
 src/Global.cc    | 44 ++++++++++++++++++++++++++++----------------
 2 files changed, 45 insertions(+), 21 deletions(-)

diff --git a/bitvec/Global.cc b/bitvec/Global.cc
index dfc3a42..c00a690 100644
--- a/bitvec/Global.cc
+++ b/bitvec/Global.cc
@@ -85,6 +85,18 @@ void PrintHelp()
 }
 //End PrintHelp
 
+//Number
+//the number that follows an option
+static int Number(char ** argv, int current)
+{
+	if(argv[current] == NULL)
+	{
+		cout<<endl<<"**** ERROR **** No value for the option : "<<argv[current-1]<<endl;
+		exit(1);
+	}
+	return atoi(argv[current]);
+}
+
 //ParseCommandLine
 //parsing the commandline options
 void ParseCommandLine(CommandLine * cline, int argc, char ** argv)
@@ -127,7 +139,7 @@ void ParseCommandLine(CommandLine * cline, int argc, char ** argv)
 			for(current = 2; current < argc; current++)
 			{
 				if (!strcmp(argv[current], "-restart") || !strcmp(argv[current], "-restarts"))
-					cline->RESTARTS = atoi(argv[++current]);
+					cline->RESTARTS = Number(argv, ++current);
 				else if(!strcmp(argv[current], "-verbose"))
 					cline->LOG = true;
 				else if(!strcmp(argv[current], "-wl"))
@@ -137,17 +149,17 @@ void ParseCommandLine(CommandLine * cline, int argc, char ** argv)
 				else if(!strcmp(argv[current], "-model"))
 					cline->MODEL = true;
 				else if(!strcmp(argv[current], "-var"))
-					cline->NUM_VAR = atoi(argv[++current]);
+					cline->NUM_VAR = Number(argv, ++current);
 				else if(!strcmp(argv[current], "-clause"))
-					cline->NUM_CLAUSE = atoi(argv[++current]);
+					cline->NUM_CLAUSE = Number(argv, ++current);
 				else if(!strcmp(argv[current], "-clausesize"))
-					cline->CLAUSE_SIZE = atoi(argv[++current]);
+					cline->CLAUSE_SIZE = Number(argv, ++current);
 				else if(!strcmp(argv[current], "-file"))
 					cline->FILE = argv[++current];
 				else if(!strcmp(argv[current], "-model"))
 					cline->MODEL_FILE = argv[++current];
 				else if(!strcmp(argv[current], "-time"))
-					cline->TIME = atoi(argv[++current]);
+					cline->TIME = Number(argv, ++current);
 				else
 					;
 			}
diff --git a/src/Global.cc b/src/Global.cc
index a6b74a3..6288746 100644
--- a/src/Global.cc
+++ b/src/Global.cc
@@ -177,6 +177,18 @@ void PrintHelp()
 }
 //End PrintHelp
 
+//Number
+//the number that follows an option
+static int Number(char ** argv, int current)
+{
+	if(argv[current] == NULL)
+	{
+		cout<<endl<<"**** ERROR **** No value for the option : "<<argv[current-1]<<endl;
+		exit(1);
+	}
+	return atoi(argv[current]);
+}
+
 //ParseCommandLine
 //parsing the commandline options
 void ParseCommandLine(CommandLine * cline, int argc, char ** argv)
@@ -222,19 +234,19 @@ void ParseCommandLine(CommandLine * cline, int argc, char ** argv)
 			for(current = 2; current < argc; current++)
 			{
 				if(!strcmp(argv[current], "-var"))
-					cline->NUM_VAR = atoi(argv[++current]);
+					cline->NUM_VAR = Number(argv, ++current);
 				else if(!strcmp(argv[current], "-clause"))
-					cline->NUM_CLAUSE = atoi(argv[++current]);
+					cline->NUM_CLAUSE = Number(argv, ++current);
 				else if(!strcmp(argv[current], "-clausesize"))
-					cline->CLAUSE_SIZE = atoi(argv[++current]);
+					cline->CLAUSE_SIZE = Number(argv, ++current);
 				else if(!strcmp(argv[current], "-sat"))
-					cline->SAT_UNSAT = atoi(argv[++current]);
+					cline->SAT_UNSAT = Number(argv, ++current);
 				else if(!strcmp(argv[current], "-domain"))
-					cline->DOMAIN_SIZE = atoi(argv[++current]);
+					cline->DOMAIN_SIZE = Number(argv, ++current);
 				else if(!strcmp(argv[current], "-drand"))
-					cline->DRAND = atoi(argv[++current]);
+					cline->DRAND = Number(argv, ++current);
 				else if(!strcmp(argv[current], "-bool"))
-					cline->BOOL_FINITE = atoi(argv[++current]);
+					cline->BOOL_FINITE = Number(argv, ++current);
 				else if(!strcmp(argv[current], "-file"))
 					cline->FILE = argv[++current];
 				else
@@ -290,17 +302,17 @@ void ParseCommandLine(CommandLine * cline, int argc, char ** argv)
 			for(current = 2; current < argc; current++)
 			{
 				if(!strcmp(argv[current], "-var"))
-					cline->NUM_VAR = atoi(argv[++current]);
+					cline->NUM_VAR = Number(argv, ++current);
 				else if(!strcmp(argv[current], "-clause"))
-					cline->NUM_CLAUSE = atoi(argv[++current]);
+					cline->NUM_CLAUSE = Number(argv, ++current);
 				else if(!strcmp(argv[current], "-clausesize"))
-					cline->CLAUSE_SIZE = atoi(argv[++current]);
+					cline->CLAUSE_SIZE = Number(argv, ++current);
 				else if(!strcmp(argv[current], "-file"))
 					cline->FILE = argv[++current];
 				else if(!strcmp(argv[current], "-model"))
 					cline->MODEL_FILE = argv[++current];
 				else if(!strcmp(argv[current], "-time"))
-					cline->TIME = atoi(argv[++current]);
+					cline->TIME = Number(argv, ++current);
 				else if(!strcmp(argv[current], "-lazy"))
 					cline -> heuristic = Heuristic::lazy;
 				else if(!strcmp(argv[current], "-verbose"))
@@ -317,7 +329,7 @@ void ParseCommandLine(CommandLine * cline, int argc, char ** argv)
 			for(current = 2; current < argc; current++)
 			{
 				if (!strcmp(argv[current], "-restart") || !strcmp(argv[current], "-restarts"))
-					cline->RESTARTS = atoi(argv[++current]);
+					cline->RESTARTS = Number(argv, ++current);
 				else if(!strcmp(argv[current], "-verbose"))
 					cline->LOG = true;
 				else if(!strcmp(argv[current], "-wl")) {
@@ -334,15 +346,15 @@ void ParseCommandLine(CommandLine * cline, int argc, char ** argv)
 				else if(!strcmp(argv[current], "-model"))
 					cline->MODEL = true;
 				else if(!strcmp(argv[current], "-var"))
-					cline->NUM_VAR = atoi(argv[++current]);
+					cline->NUM_VAR = Number(argv, ++current);
 				else if(!strcmp(argv[current], "-clause"))
-					cline->NUM_CLAUSE = atoi(argv[++current]);
+					cline->NUM_CLAUSE = Number(argv, ++current);
 				else if(!strcmp(argv[current], "-clausesize"))
-					cline->CLAUSE_SIZE = atoi(argv[++current]);
+					cline->CLAUSE_SIZE = Number(argv, ++current);
 				else if(!strcmp(argv[current], "-file"))
 					cline->FILE = argv[++current];
 				else if(!strcmp(argv[current], "-time"))
-					cline->TIME = atoi(argv[++current]);
+					cline->TIME = Number(argv, ++current);
 				else
 					;
 			}
-- 
2.43.0

