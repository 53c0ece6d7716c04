From c47993b40c92ff6bca632db3fcbbd84825d199a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:33 +0000
Subject: [PATCH 01/37] fix: do not append the delimiter to a primitive that
 directly follows ':'

{"a":0} produced the output 0} for $.a: the length was taken from the
colon, the text from the byte after it.
---
 JSONQuery/lexing.c | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/JSONQuery/lexing.c b/JSONQuery/lexing.c
index ee95f2e..e7e58b6 100644
--- a/JSONQuery/lexing.c
+++ b/JSONQuery/lexing.c
@@ -172,13 +172,8 @@ Token nextToken(Lexer* lexer)
                     case ' ':
                     case '\t':
                    	{
-                        int tempcount = p-start;
-                        templen = tempcount; 
-                        if(p[0]=='"')
-                            substring_in_place(sub1, start, 1 ,tempcount); 
-                        else if(token_pointer[tempcount-1]==',') 
-                            substring_in_place(sub1, token_pointer, 0, tempcount-1);
-                        else substring_in_place(sub1, token_pointer, 0, tempcount);
+                        //the primitive occupies exactly [token_pointer, p)
+                        substring_in_place(sub1, token_pointer, 0, p-token_pointer);
                         strcopy(sub1,lexer->content);
                         token_len = p - start + 1;
                         token_pointer = start + token_len;
-- 
2.43.0


From d2c1d8cf266b2cbf73d4d8afe9ba1f0b03a73b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:33 +0000
Subject: [PATCH 02/37] fix: end a primitive at a line break

JSON white space includes line feed and carriage return; the line break
was kept as part of the primitive's text.
---
 JSONQuery/lexing.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/JSONQuery/lexing.c b/JSONQuery/lexing.c
index e7e58b6..d446a63 100644
--- a/JSONQuery/lexing.c
+++ b/JSONQuery/lexing.c
@@ -171,6 +171,8 @@ Token nextToken(Lexer* lexer)
                     case ',':
                     case ' ':
                     case '\t':
+                    case '\n':
+                    case '\r':
                    	{
                         //the primitive occupies exactly [token_pointer, p)
                         substring_in_place(sub1, token_pointer, 0, p-token_pointer);
-- 
2.43.0


From 7552cd4dbdacca80b54ec3b1cac86ab687604e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:33 +0000
Subject: [PATCH 03/37] fix: keep the minus sign of negative numbers

The lexer skipped '-', so -5 was reported as 5.
---
 JSONQuery/lexing.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/JSONQuery/lexing.c b/JSONQuery/lexing.c
index d446a63..ecc766e 100644
--- a/JSONQuery/lexing.c
+++ b/JSONQuery/lexing.c
@@ -86,7 +86,7 @@ Token nextToken(Lexer* lexer)
                         state = 0;
                         break;
                     default: //it might be a single primitive
-                        if((*p>='0'&&*p<='9')||(*p>='a'&&*p<='z')||(*p>='A'&&*p<='Z')) state=2;
+                        if(*p=='-'||(*p>='0'&&*p<='9')||(*p>='a'&&*p<='z')||(*p>='A'&&*p<='Z')) state=2;
                         else
                         {
                             token_len = p - start + 1;
-- 
2.43.0


From 3d44895d3de36cb882c874156f3d410c9cde2485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:33 +0000
Subject: [PATCH 04/37] fix: recognise a key whose colon follows a line break

A string followed by a line feed or carriage return and then ':' was
reported as a primitive value instead of a key.
---
 JSONQuery/lexing.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/JSONQuery/lexing.c b/JSONQuery/lexing.c
index ecc766e..7f03580 100644
--- a/JSONQuery/lexing.c
+++ b/JSONQuery/lexing.c
@@ -120,7 +120,7 @@ Token nextToken(Lexer* lexer)
                         token_pointer = start + token_len;
                         start = token_pointer;
 
-                        while(*(p+1)==' '||*(p+1)=='\t') //ignore space
+                        while(*(p+1)==' '||*(p+1)=='\t'||*(p+1)=='\n'||*(p+1)=='\r') //ignore space
                         {
                             p++;
                             token_len = p - start + 1;
-- 
2.43.0


From e1fca600cc47e0e243392cce5f068d5d5ad991f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:35 +0000
Subject: [PATCH 05/37] fix: compile the [index] operator

---
 DFABuilder/src/dfa_builder.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/DFABuilder/src/dfa_builder.cpp b/DFABuilder/src/dfa_builder.cpp
index ffa8f92..23b021f 100644
--- a/DFABuilder/src/dfa_builder.cpp
+++ b/DFABuilder/src/dfa_builder.cpp
@@ -246,6 +246,14 @@ struct StackContext {
                     array_range[model->size()-1] = {begin, end};
                     break;
                 }
+                // [index]
+                case jnt_number: {
+                    int index = p->number;
+                    push({set_array_index, index, index+1});
+                    create_dfa();
+                    array_range[model->size()-1] = {index, index+1};
+                    break;
+                }
                 // [*]
                 case jnt_wildcard: {
                     push({set_array_all});
-- 
2.43.0


From c96a707b4dc26ef6e6723b66c16767df9abeae27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:35 +0000
Subject: [PATCH 06/37] fix: do not treat the empty slice [0:0] as an
 unrestricted one

---
 DFABuilder/src/dfa_builder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DFABuilder/src/dfa_builder.cpp b/DFABuilder/src/dfa_builder.cpp
index 23b021f..8e15d27 100644
--- a/DFABuilder/src/dfa_builder.cpp
+++ b/DFABuilder/src/dfa_builder.cpp
@@ -241,6 +241,8 @@ struct StackContext {
                     else begin = INT_MIN;
                     if (p->right) end = p->right->number;
                     else end = INT_MAX;
+                    // {0, 0} stands for "no range" in the table: keep the empty slice [0:0] apart from it
+                    if (begin == 0 && end == 0) begin = end = -1;
                     push({set_array_index, begin, end});
                     create_dfa();
                     array_range[model->size()-1] = {begin, end};
-- 
2.43.0


From 50257957dedca47d1801127962a22c7742d0a293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:47 +0000
Subject: [PATCH 07/37] fix: compile the query $ (root object)

---
 DFABuilder/src/Lexer/regex_builder.cpp | 2 ++
 DFABuilder/src/dfa_builder.cpp         | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/DFABuilder/src/Lexer/regex_builder.cpp b/DFABuilder/src/Lexer/regex_builder.cpp
index a59bbcb..35a13e9 100644
--- a/DFABuilder/src/Lexer/regex_builder.cpp
+++ b/DFABuilder/src/Lexer/regex_builder.cpp
@@ -43,6 +43,8 @@ DFA* RegexBuilder::CreateDFA(RegexItem* item) {
     begin.insert(&ch);
     listSet.clear();
     listSet.push_back(begin);
+    // the empty input matches a nullable expression
+    if (item->nullable) dfa->setStopState(1, 1);
     vector<int> transform_buffer;
     while (p < listSet.size()) {
         // This line will let all the set contain a keepout stop finding next edge
diff --git a/DFABuilder/src/dfa_builder.cpp b/DFABuilder/src/dfa_builder.cpp
index 8e15d27..fbe2b58 100644
--- a/DFABuilder/src/dfa_builder.cpp
+++ b/DFABuilder/src/dfa_builder.cpp
@@ -89,7 +89,7 @@ struct StackContext {
     vector<ASTNode*> tree_mapping;
     set<int> output_states;
 
-    StackContext(RegexModel* model, ASTNode* root) : model(model), root(root), st(0), input_mapping(3), array_range(0) {}
+    StackContext(RegexModel* model, ASTNode* root) : model(model), root(root), st(0), last_st_generated(false), last_id_generated(0), input_mapping(3), array_range(0) {}
     ~StackContext() {}
 
     void push(StackElement&& s) {
-- 
2.43.0


From 07efd7c89061dded570f8b758f69adf85d4455a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:43 +0000
Subject: [PATCH 08/37] fix: do not shift extracted text by the leading blanks
 of the source

---
 JSONQuery/utility.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/JSONQuery/utility.c b/JSONQuery/utility.c
index 2bf6487..2225c39 100644
--- a/JSONQuery/utility.c
+++ b/JSONQuery/utility.c
@@ -28,7 +28,6 @@ char* substring(char *pText, int begin, int end)
 {
     int i,j;
     char * temp=pText;
-    temp = ltrim(pText);
     char* temp1=NULL; 
     temp1=(char*)malloc((end-begin+1)*sizeof(char));
     for (j = 0,i = begin; i < end; i++,j++)
@@ -48,7 +47,6 @@ void substring_in_place(char* desc, char *pText, int begin, int end)
 {
     int i,j;
     char * temp=pText;
-    temp = ltrim(pText);
     for (j = 0,i = begin; i < end; i++,j++)
     {
         desc[j]=temp[i];
-- 
2.43.0


From 17aac717ef3ec7a1bb42651bf317abcddc6c7615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:06 +0000
Subject: [PATCH 09/37] fix: cut input streams inside the stream and only
 before an opening quote; report the real chunk count

---
 JSONQuery/file_partition.h |  9 +++++++++
 JSONQuery/path_processor.h | 35 ++++++++++++++---------------------
 2 files changed, 23 insertions(+), 21 deletions(-)

diff --git a/JSONQuery/file_partition.h b/JSONQuery/file_partition.h
index bb23eb0..ffa5b82 100644
--- a/JSONQuery/file_partition.h
+++ b/JSONQuery/file_partition.h
@@ -9,6 +9,15 @@ typedef struct PartitionInfo
     int num_chunk;
 }PartitionInfo;
 
+//a chunk may only be cut right before a quote that opens a string after one of , { [
+//string states used while scanning for a cut: 0--outside of strings, 1--inside a string, 2--right after a backslash
+static inline int nextStringState(int state, char ch)
+{
+    if(state==2) return 1;
+    if(state==1) return ch=='\\'?2:(ch=='"'?0:1);
+    return ch=='"'?1:0;
+}
+
 //partitioned intput stream into several chunks
 PartitionInfo partitionFile(char* file_name, int num_core);
 
diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index 4da0a57..1ae1596 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -105,34 +105,28 @@ PartitionInfo partitionInputStream(char* input_stream, int num_core)
     char ch = -1; 
     for(i = 0; i<num_core-1; i++)
     {   
-        stream[i] = (char*)malloc((chunk_size+MAX_EXTENSION)*sizeof(char)); 
-        substring_in_place(stream[i], input_stream, sum_size, sum_size+chunk_size);
-        sum_size += chunk_size; 
-        int add = 0;
+        long end = sum_size;
+        int state = 0;    //a chunk never starts inside a string
+        for(; end<sum_size+chunk_size && end<stream_size; end++)
+            state = nextStringState(state, input_stream[end]);
         //look for the next complete token
-        while(sum_size<=stream_size)
-        {    
-            ch = input_stream[sum_size+add];
-            if(ch=='"')
+        for(; end<stream_size; end++)
+        {
+            ch = input_stream[end];
+            if(ch=='"'&&state==0)
             {
-                char prev = stream[i][chunk_size+add-1];
-                int t = 1;
-                while(prev==' '||prev=='\t'||prev=='\n'||prev==13)
-                {
-                    prev = stream[i][chunk_size+add-t]; 
-                    t++;
-                }
+                long t = end-1;
+                while(t>sum_size&&(input_stream[t]==' '||input_stream[t]=='\t'||input_stream[t]=='\n'||input_stream[t]==13)) t--;
+                char prev = input_stream[t];
                 if(prev==','||prev=='{'||prev=='[')
                 {
-                    stream[i][chunk_size+add] = ch;
                     break;
                 }
             }
-            stream[i][chunk_size+add] = ch; 
-            add = add+1;
+            state = nextStringState(state, ch);
         }
-        stream[i][chunk_size+add] = '\0'; 
-        sum_size += add;
+        stream[i] = substring(input_stream, sum_size, end);
+        sum_size = end;
         if((sum_size+chunk_size)>=stream_size) {i++; break;}
     } 
     pInfo.num_chunk = i;
@@ -142,7 +136,6 @@ PartitionInfo partitionInputStream(char* input_stream, int num_core)
         stream[i] = substring(input_stream, sum_size, stream_size);
         pInfo.num_chunk = i+1;
     }
-    pInfo.num_chunk = i+1;
     pInfo.stream = stream;
     printf("stream partitioner: finish splitting the input stream\n");
     return pInfo;
-- 
2.43.0


From 1fe7954824e9d0c57e5aac87dcf6f05a2e779fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:06 +0000
Subject: [PATCH 10/37] fix: cut bounded loads only before an opening quote,
 within the buffer, and close the file

---
 JSONQuery/path_processor.h | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index 1ae1596..1f8ee4b 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -53,30 +53,37 @@ char* loadBoundedInputStream(char* file_name, int* start_pos)
     size = size - loaded_size;
     if(size > MEMORY_FOOTPRINT)
         size = MEMORY_FOOTPRINT;
-    if(size<=0) return NULL;    
+    if(size<=0) { fclose(fp); return NULL; }
     fseek(fp, loaded_size, SEEK_CUR);
-    char* stream =(char*)malloc((size+MAX_EXTENSION)*sizeof(char));
+    int capacity = size+MAX_EXTENSION;
+    char* stream =(char*)malloc(capacity*sizeof(char));
     fread(stream,1,size,fp);
-    int add = 0;
+    int state = 0;    //an input chunk never starts inside a string
+    int add;
+    for(add = 0; add<size; add++)
+        state = nextStringState(state, stream[add]);
+    add = 0;
     //look for the next complete token
     char ch = fgetc(fp);
     while(1)
     {    
         if(ch==EOF) break;
-        if(ch=='"')
+        if(ch=='"'&&state==0)
         {
-            char prev = stream[size+add-1];
-            int t = 1;
-            while(prev==' '||prev=='\t'||prev=='\n'||prev==13)
-            {
-                prev = stream[size+add-t]; 
-                t++;
-            }
+            int t = size+add-1;
+            while(t>0&&(stream[t]==' '||stream[t]=='\t'||stream[t]=='\n'||stream[t]==13)) t--;
+            char prev = stream[t];
             if(prev==','||prev=='{'||prev=='[')
             {
                 break;
             }
         }
+        state = nextStringState(state, ch);
+        if(size+add+1>=capacity)
+        {
+            capacity += MAX_EXTENSION;
+            stream = (char*)realloc(stream, capacity*sizeof(char));
+        }
         stream[size+add] = ch; 
         add = add+1;
         ch = fgetc(fp);
-- 
2.43.0


From 544b55d3441c69ed2379cdfa8f4b94c60beddb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:04 +0000
Subject: [PATCH 11/37] fix: partition a file without overrunning the chunks,
 losing its last byte or inventing a chunk

---
 JSONQuery/file_partition.c | 62 ++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 36 deletions(-)

diff --git a/JSONQuery/file_partition.c b/JSONQuery/file_partition.c
index cf8b6fb..9a52e42 100644
--- a/JSONQuery/file_partition.c
+++ b/JSONQuery/file_partition.c
@@ -29,37 +29,37 @@ PartitionInfo partitionFile(char* file_name, int num_core)
     char ch = -1; 
     for(i = 0; i<num_core-1; i++)
     {
-        stream[i] = (char*)malloc((chunk_size+MAX_EXTENSION)*sizeof(char));
-        if(ch!=-1)
-        {
-            stream[i][0]=ch;
-            stream[i][1]='\0';
-            char * buff=(char*)malloc((chunk_size)*sizeof(char)); 
-            fread (buff,1,chunk_size-1,fp); 
-            buff[chunk_size-1]='\0'; 
-            stream[i]=strcat(stream[i],buff); 
-        }
-        else fread (stream[i],1,chunk_size,fp);
-        int add = 0;
+        long capacity = chunk_size+MAX_EXTENSION;
+        stream[i] = (char*)malloc(capacity*sizeof(char));
+        int first = 0;
+        if(ch!=-1) stream[i][first++]=ch;
+        fread (stream[i]+first,1,chunk_size-first,fp);
+        int state = 0;    //a chunk never starts inside a string
+        int add;
+        for(add = 0; add<chunk_size; add++)
+            state = nextStringState(state, stream[i][add]);
+        add = 0;
         //look for the next complete token
         ch = fgetc(fp);
         while(1)
         {    
             if(ch==EOF) break;
-            if(ch=='"')
+            if(ch=='"'&&state==0)
             {
-                char prev = stream[i][chunk_size+add-1];
-                int t = 1;
-                while(prev==' '||prev=='\t'||prev=='\n'||prev==13)
-                {
-                    prev = stream[i][chunk_size+add-t]; 
-                    t++;
-                }
+                long t = chunk_size+add-1;
+                while(t>0&&(stream[i][t]==' '||stream[i][t]=='\t'||stream[i][t]=='\n'||stream[i][t]==13)) t--;
+                char prev = stream[i][t];
                 if(prev==','||prev=='{'||prev=='[')
                 {
                     break;
                 }
             }
+            state = nextStringState(state, ch);
+            if(chunk_size+add+1>=capacity)
+            {
+                capacity += MAX_EXTENSION;
+                stream[i] = (char*)realloc(stream[i], capacity*sizeof(char));
+            }
             stream[i][chunk_size+add] = ch; 
             add = add+1;
             ch = fgetc(fp);
@@ -72,24 +72,14 @@ PartitionInfo partitionFile(char* file_name, int num_core)
     long remain_size = file_size-sum_size;
     if(remain_size>0)
     {
-        stream[i] = (char*)malloc((remain_size)*sizeof(char));
-        if(ch!=-1)
-        {
-            stream[i][0]=ch;
-            stream[i][1]='\0';
-            char* buff=(char*)malloc(remain_size*sizeof(char));
-            fread (buff,1,remain_size-1,fp);
-            buff[remain_size-1]='\0';
-            stream[i]=strcat(stream[i],buff);
-            stream[i][remain_size] = '\0'; 
-        }
-        else{
-            fread (stream[i],1,remain_size,fp);
-            stream[i][remain_size] = '\0';
-        }
+        stream[i] = (char*)malloc((remain_size+1)*sizeof(char));
+        int first = 0;
+        if(ch!=-1) stream[i][first++]=ch;
+        fread (stream[i]+first,1,remain_size-first,fp);
+        stream[i][remain_size] = '\0';
         pInfo.num_chunk = i+1;
     }
-    pInfo.num_chunk = i+1;
+    fclose(fp);
     pInfo.stream = stream;
     printf("file partitioner: finish splitting the input stream\n");
     return pInfo;
-- 
2.43.0


From 368c1514e8dbca769c936ebb60a4c3d6bd487db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:15 +0000
Subject: [PATCH 12/37] fix: tell the byte 0xFF from the end of the file

---
 JSONQuery/file_partition.c | 2 +-
 JSONQuery/path_processor.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/JSONQuery/file_partition.c b/JSONQuery/file_partition.c
index 9a52e42..2b0f3f4 100644
--- a/JSONQuery/file_partition.c
+++ b/JSONQuery/file_partition.c
@@ -26,7 +26,7 @@ PartitionInfo partitionFile(char* file_name, int num_core)
     for(i = 0; i<num_core; i++)
         stream[i] = NULL;
     long sum_size = 0;   //the number of bytes that have been processed
-    char ch = -1; 
+    int ch = -1;
     for(i = 0; i<num_core-1; i++)
     {
         long capacity = chunk_size+MAX_EXTENSION;
diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index 1f8ee4b..bbf8069 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -64,7 +64,7 @@ char* loadBoundedInputStream(char* file_name, int* start_pos)
         state = nextStringState(state, stream[add]);
     add = 0;
     //look for the next complete token
-    char ch = fgetc(fp);
+    int ch = fgetc(fp);
     while(1)
     {    
         if(ch==EOF) break;
-- 
2.43.0


From a502028037e7025d377324d0ac40cbd2ac8033a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:16 +0000
Subject: [PATCH 13/37] fix: keep the streaming state, the tuple list and the
 text of open results across input chunks

---
 JSONQuery/path_processor.h      |  3 ++-
 JSONQuery/streaming_automaton.c | 33 +++++++++++++++++++++++++++++++++
 JSONQuery/streaming_automaton.h |  9 +++++++++
 3 files changed, 44 insertions(+), 1 deletion(-)

diff --git a/JSONQuery/path_processor.h b/JSONQuery/path_processor.h
index bbf8069..0ec51d2 100644
--- a/JSONQuery/path_processor.h
+++ b/JSONQuery/path_processor.h
@@ -180,6 +180,7 @@ typedef struct StreamingContext{
 
 static inline void initStreamingContext(StreamingContext* ci)
 {
+    memset(ci, 0, sizeof(StreamingContext));
     ci->context_flag = NOCONTEXT;
     ci->finish_flag = INPROGRESS;
 }
@@ -207,7 +208,6 @@ static inline Output* serialPartialRun(PathProcessor* path_processor, char* inpu
 
     //run streaming automaton
     executeAutomaton(&streaming_automaton, input_stream, CLOSE);
-    ci->sa = streaming_automaton;
 
     //predicate filtering
     PredicateFilter pf;
@@ -218,6 +218,7 @@ static inline Output* serialPartialRun(PathProcessor* path_processor, char* inpu
 
     //free up dynamic memories
     destroyStreamingAutomaton(&streaming_automaton);
+    ci->sa = streaming_automaton;
 
     //set context flag
     ci->context_flag = CONTEXT;
diff --git a/JSONQuery/streaming_automaton.c b/JSONQuery/streaming_automaton.c
index cd874a1..909eeb3 100644
--- a/JSONQuery/streaming_automaton.c
+++ b/JSONQuery/streaming_automaton.c
@@ -141,9 +141,26 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
     qs_element.matched_start = sa->matched_start;
     QueryStackElement* qs_elt = &qs_element;  //address of qs_element
 
+    //matched objects and arrays may have started in previous chunks, their text is needed again
+    char* joined_stream = NULL;
+    long open_len = 0;
+    if(sa->open_text!=NULL)
+    {
+        open_len = strlen(sa->open_text);
+        joined_stream = (char*)malloc((open_len+strlen(json_stream)+1)*sizeof(char));
+        strcpy(joined_stream, sa->open_text);
+        strcpy(joined_stream+open_len, json_stream);
+        free(sa->open_text);
+        sa->open_text = NULL;
+        json_stream = joined_stream;
+    }
+
     //initialize lexer
     Lexer lexer;
     initLexer(&lexer, json_stream);
+    lexer.current_pointer += open_len;
+    lexer.current_start += open_len;
+    lexer.next_start += open_len;
 
     Token token = nextToken(&lexer);
     int token_type = token.token_type;
@@ -321,6 +338,22 @@ void executeAutomaton(StreamingAutomaton* sa, char* json_stream, int data_constr
         token = nextToken(&lexer);
         token_type = token.token_type; 
     }
+    //save the text of the matched objects and arrays that continue in the next chunk
+    int open_start = qs_elt->matched_start;
+    int i;
+    for(i = 0; i<=qs->top_item; i++)
+    {
+        int start = qs->item[i].matched_start;
+        if(start!=INVALID && (open_start==INVALID || start<open_start)) open_start = start;
+    }
+    if(open_start!=INVALID)
+    {
+        sa->open_text = substring(lexer.begin_stream, open_start, lexer.end_stream - lexer.begin_stream);
+        if(qs_elt->matched_start!=INVALID) qs_elt->matched_start -= open_start;
+        for(i = 0; i<=qs->top_item; i++)
+            if(qs->item[i].matched_start!=INVALID) qs->item[i].matched_start -= open_start;
+    }
+    if(joined_stream!=NULL) free(joined_stream);
     destroyLexer(&lexer);
     sa->query_state = qs_elt->query_state;
     sa->count = qs_elt->count;
diff --git a/JSONQuery/streaming_automaton.h b/JSONQuery/streaming_automaton.h
index 58eac63..a9131df 100644
--- a/JSONQuery/streaming_automaton.h
+++ b/JSONQuery/streaming_automaton.h
@@ -28,6 +28,8 @@ typedef struct StreamingAutomaton{
     // saves data constraint table
     ConstraintTable* constraint_table;
     int finish_flag;
+    // text of the matched objects and arrays that are still open at the end of an input chunk
+    char* open_text;
 }StreamingAutomaton;
 
 // sa -- streaming automaton qa -- query automaton
@@ -44,6 +46,8 @@ static inline void initStreamingAutomaton(StreamingAutomaton* sa, JSONQueryDFA*
     //by default don't generate any data constraints
     sa->constraint_flag = CLOSE;
     sa->constraint_table = NULL;
+    sa->finish_flag = INPROGRESS;
+    sa->open_text = NULL;
 }
 
 static inline void destroyStreamingAutomaton(StreamingAutomaton* sa)
@@ -57,6 +61,11 @@ static inline void destroyStreamingAutomaton(StreamingAutomaton* sa)
     {
         sa->tuple_list = createTupleList();
     }
+    else if(sa->open_text != NULL)
+    {
+        free(sa->open_text);
+        sa->open_text = NULL;
+    }
 }
 
 // data_constraint_flag: whether sa needs to generate data constraints
-- 
2.43.0


From 482d936f616dc7c712ae98ff328f729ef64a9e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:52 +0000
Subject: [PATCH 14/37] fix: do not let the look-ahead overwrite the current
 primitive in a worker

---
 JSONQuery/worker_automaton.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index 9a6cfbb..fc17feb 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -47,6 +47,9 @@ static inline int getMatchedType(JSONQueryDFA* qa, TreeNode* tnode)
 //syntax stack feasibility inference
 static inline void syntaxStackInference(Lexer* lexer, int input_token_type, SyntaxStack* shadow_ss, SyntaxStack* ss)
 {
+    //look ahead without overwriting the content of the current token
+    char lookahead_content[MAX_SIZE_PRIMITIVE];
+    lexer->content = lookahead_content;
     Token first_token = nextToken(lexer);
     Token second_token = nextToken(lexer);
     if(input_token_type==RCB)
-- 
2.43.0


From 31bffe5e06ae079f83425895163b5a6493b96ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:22 +0000
Subject: [PATCH 15/37] fix: merge array indexes, open results and node links
 correctly across parallel chunks

---
 JSONQuery/multi_stack.h                 | 26 +++++++--
 JSONQuery/parallel_automata_execution.h | 72 +++++++++++++------------
 JSONQuery/tuple_list.h                  |  2 +
 JSONQuery/unit.h                        |  1 +
 JSONQuery/worker_automaton.c            | 16 ++----
 5 files changed, 70 insertions(+), 47 deletions(-)

diff --git a/JSONQuery/multi_stack.h b/JSONQuery/multi_stack.h
index 3155edc..9ecb5aa 100644
--- a/JSONQuery/multi_stack.h
+++ b/JSONQuery/multi_stack.h
@@ -332,6 +332,7 @@ static inline void addTupleInfo(QueryStacks* qs, int node_index, int query_state
              qs->node[root_index].first_tuple_index = tuple_index;
              qs->node[root_index].last_tuple_index = tuple_index;
          }
+         tl->element[getTupleListSize(tl)-1].root_count = root.count;
          root_s++;
      }
      //node_index represents a root node
@@ -350,6 +351,7 @@ static inline void addTupleInfo(QueryStacks* qs, int node_index, int query_state
              qs->node[root_index].first_tuple_index = tuple_index;
              qs->node[root_index].last_tuple_index = tuple_index;
          }
+         tl->element[getTupleListSize(tl)-1].root_count = root.count;
      }
 }
 
@@ -376,6 +378,7 @@ static inline void addVirtualTupleInfo(QueryStacks* qs, int node_index, int quer
              qs->node[root_index].first_tuple_index = tuple_index;
              qs->node[root_index].last_tuple_index = tuple_index;
          }
+         tl->element[getTupleListSize(tl)-1].root_count = root.count;
          root_s++;
      }
      //node_index represents a root node
@@ -394,11 +397,13 @@ static inline void addVirtualTupleInfo(QueryStacks* qs, int node_index, int quer
              qs->node[root_index].first_tuple_index = tuple_index;
              qs->node[root_index].last_tuple_index = tuple_index;
          }
+         tl->element[getTupleListSize(tl)-1].root_count = root.count;
      }
 }
 
 // combine one stack with multiple paths into another stack with a single path, can only be used during merging phase
-static inline void combineQueryStacks(QueryStacks* dst_qs, QueryStacksElement* dst_qs_elt, QueryStacks* src_qs, QueryStacksElement* src_qs_elt)
+// src_begin: position of the chunk processed by src_qs inside the whole stream
+static inline void combineQueryStacks(QueryStacks* dst_qs, QueryStacksElement* dst_qs_elt, QueryStacks* src_qs, QueryStacksElement* src_qs_elt, JSONQueryDFA* qa, int src_begin)
 {
     int i = 0;
     src_qs->item[++src_qs->top_item] = (*src_qs_elt);
@@ -422,6 +427,12 @@ static inline void combineQueryStacks(QueryStacks* dst_qs, QueryStacksElement* d
         } 
         if(root_index!=-1)
         { 
+            //the element that is still open might be out of the range of array indexes
+            JSONQueryIndexPair pair = getDFAArrayIndex(qa, query_state);
+            int counter = dst_qs->node[dst_qs_elt->start].count;
+            int in_range = (pair.lower==0&&pair.upper==0)||(counter>=pair.lower && counter<pair.upper);
+            if(in_range && src_qs->node[root_index].matched_start!=INVALID)
+                dst_qs->node[dst_qs_elt->start].matched_start = src_qs->node[root_index].matched_start + src_begin;
             //use root information to find the correct paths in src_qs
             for(i = 1; i<=top_src; i++)
             {
@@ -438,9 +449,18 @@ static inline void combineQueryStacks(QueryStacks* dst_qs, QueryStacksElement* d
                         if(src_qs->root_pointers[root_start]==root_index)
                         {
                             int node_index = (dst_qs->num_node++); 
-                            dst_qs->node[node_index].query_state = src_qs->node[start].query_state;
+                            dst_qs->node[node_index].query_state = in_range?src_qs->node[start].query_state:0;
                             dst_qs->node[node_index].count = src_qs->node[start].count;
-                            dst_qs->node[node_index].matched_start = src_qs->node[start].matched_start;
+                            dst_qs->node[node_index].matched_start = INVALID;
+                            if(in_range && src_qs->node[start].matched_start!=INVALID)
+                                dst_qs->node[node_index].matched_start = src_qs->node[start].matched_start + src_begin;
+                            //the only parent is the previous level, the only root is the first node
+                            dst_qs->parent_pointers[dst_qs->num_parent_pointers] = dst_qs_elt->start;
+                            dst_qs->node[node_index].parent_range.start = dst_qs->num_parent_pointers;
+                            dst_qs->node[node_index].parent_range.end = dst_qs->num_parent_pointers++;
+                            dst_qs->root_pointers[dst_qs->num_root_pointers] = 0;
+                            dst_qs->node[node_index].root_range.start = dst_qs->num_root_pointers;
+                            dst_qs->node[node_index].root_range.end = dst_qs->num_root_pointers++;
                             dst_qs_elt->start = node_index;
                             dst_qs_elt->end = node_index;
                             break;
diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 0419465..4dcf1ec 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -126,6 +126,24 @@ static inline int getMatchedType(JSONQueryDFA* qa, TreeNode* tnode)
     return match;
 }
 
+//get the text of an object or array across different chunks, it starts at position start of the whole stream
+//and ends right before position end of the last chunk; chunk_begin saves the starting position of each chunk
+static inline char* getCrossChunkText(ThreadInfo* thread_info, int* chunk_begin, int start, int last, int end)
+{
+    int i = 0, len = 0;
+    char* text = (char*)malloc((chunk_begin[last]+end-start+1)*sizeof(char));
+    while(chunk_begin[i+1]<=start) i++;
+    for(; i<=last; i++)
+    {
+        int from = start>chunk_begin[i]?start-chunk_begin[i]:0;
+        int to = i==last?end:chunk_begin[i+1]-chunk_begin[i];
+        memcpy(text+len, thread_info[i].input_stream+from, to-from);
+        len += to-from;
+    }
+    text[len] = '\0';
+    return text;
+}
+
 // merging results from different chunks
 TupleList* combine(ThreadInfo* thread_info, int num_thread)
 {
@@ -143,6 +161,11 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
     //save information for current unmatched symbol
     UnmatchedSymbol us;
     int sum = getTupleListSize(tuple_list); 
+    //matched_start of the nodes in qs is relative to the whole stream
+    int chunk_begin[MAX_THREAD+1];
+    chunk_begin[0] = 0;
+    for(int i = 0; i<num_thread; i++)
+        chunk_begin[i+1] = chunk_begin[i] + strlen(thread_info[i].input_stream);
 
     for(int i = 1; i<num_thread; i++)
     {
@@ -176,12 +199,7 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                             int matched_type = getMatchedType(qa,&c_node);
                             if(matched_type==DFA_OUTPUT_CANDIDATE)
                             {  
-                                int left_len = strlen(thread_info[i-1].input_stream)-c_node.matched_start;
-                                int right_len = us.index+1;
-                                int strlen = left_len+right_len;
-                                char* object_text = (char*)malloc((strlen+1)*sizeof(char));
-                                substring_in_place(object_text, thread_info[i-1].input_stream, c_node.matched_start, c_node.matched_start+left_len);
-                                substring_in_place(object_text+left_len, thread_info[i].input_stream, 0, us.index+1);
+                                char* object_text = getCrossChunkText(thread_info, chunk_begin, c_node.matched_start, i, us.index+1);
                                 addTupleInfo(&qs, node_index, c_node.query_state, object_text, tuple_list);
                                 qs.node[node_index].matched_start = INVALID;
                                 sum++;
@@ -227,14 +245,9 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                             int matched_type = getMatchedType(qa,&c_node);
                             if(matched_type==DFA_OUTPUT_CANDIDATE)
                             {  
-                                int left_len = strlen(thread_info[i-1].input_stream)-c_node.matched_start;
-                                int right_len = us.index;
-                                int strlen = left_len+right_len;
-                                char* object_text = (char*)malloc((strlen+1)*sizeof(char));
-                                substring_in_place(object_text, thread_info[i-1].input_stream, c_node.matched_start, c_node.matched_start+left_len);
-                                substring_in_place(object_text+left_len, thread_info[i].input_stream, 0, us.index+1);
-                                addTupleInfo(&qs, node_index, c_node.query_state, object_text, tuple_list);
-                                qs.node[node_index].matched_start = INVALID;
+                                char* object_text = getCrossChunkText(thread_info, chunk_begin, c_node.matched_start, i, us.index+1);
+                                addTupleInfo(&qs, top_qs_elt.start, c_node.query_state, object_text, tuple_list);
+                                qs.node[top_qs_elt.start].matched_start = INVALID;
                                 sum++;
                             }
                         }
@@ -293,7 +306,14 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                     seq_wa->query_stacks_element = qs_elt;
                     seq_wa->need_reprocess = REPROCESS;
                     printf("start reprocessing the %dth unit in the %dth chunk\n", j, i);
+                    //matches that start inside the unit are relative to the beginning of the unit
+                    int is_open[MAX_NODE];
+                    for(k = 0; k<MAX_NODE; k++)
+                        is_open[k] = k<qs.num_node && qs.node[k].matched_start!=INVALID;
                     executeWorkerAutomaton(seq_wa, streaming); 
+                    for(k = 0; k<seq_wa->query_stacks.num_node; k++)
+                        if(!is_open[k] && seq_wa->query_stacks.node[k].matched_start!=INVALID)
+                            seq_wa->query_stacks.node[k].matched_start += chunk_begin[i]+start_index;
                     printf("the %dth unit in the %dth chunk has been reprocessed successfully\n", j, i);
                     free(streaming);
                     ss = seq_wa->syntax_stack;
@@ -314,25 +334,9 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                 JSONQueryIndexPair pair = getDFAArrayIndex(qa, query_state);
                 int lower = pair.lower; 
                 int upper = pair.upper; 
-                int counter = qs.node[qs_elt.start].count; 
+                int counter = qs.node[qs_elt.start].count + tuple.root_count; 
                 //check array indexes
-                if(!(lower==0&&upper==0))
-                {
-                    if(strcmp(tuple.text, "}")==0||strcmp(tuple.text, "]")==0) { 
-                        qs.node[qs_elt.start].count++; 
-                        if(qs.node[qs_elt.start].count>=upper) qs.node[qs_elt.start].query_state = 0; 
-                        continue;
-                    }
-                    else if(!(counter>=lower && counter<upper)) { 
-                        if(qs.node[qs_elt.start].count>=upper) qs.node[qs_elt.start].query_state = 0;
-                        continue;
-                    }
-                    else
-                    {
-                        int matched_type = getMatchedType(qa, &qs.node[qs_elt.start]);
-                        if(matched_type==DFA_OUTPUT_CANDIDATE) qs.node[qs_elt.start].count++;
-                    }
-                }    
+                if(!((lower==0&&upper==0)||(counter>=lower && counter<upper))) continue;
                 // add corresponding tuple into the tuple list 
                 if(tuple.start_position==-1)
                     addTuple(tuple_list, tuple.state, tuple.text);
@@ -343,12 +347,14 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                 }
                 sum++;
             }
+            //array elements that are finished inside the unit
+            if(l<unit.num_root) qs.node[qs_elt.start].count += unit.root_node[l].count;
         }
         //merge stack  
         if(merge_needed==1)
         {
             combineSyntaxStack(&ss, &wa->syntax_stack); 
-            combineQueryStacks(&qs, &qs_elt, &wa->query_stacks, &wa->query_stacks_element);  //merge query stacks
+            combineQueryStacks(&qs, &qs_elt, &wa->query_stacks, &wa->query_stacks_element, qa, chunk_begin[i]);  //merge query stacks
         }
     }
     seq_wa->syntax_stack = ss;
diff --git a/JSONQuery/tuple_list.h b/JSONQuery/tuple_list.h
index 4eab925..b031a25 100644
--- a/JSONQuery/tuple_list.h
+++ b/JSONQuery/tuple_list.h
@@ -14,6 +14,8 @@ typedef struct Tuple{
     int state;
     char text[MAX_TEXT];
     int next_index;
+    //number of array elements finished at the root level when the tuple was added
+    int root_count;
 }Tuple;
 
 typedef struct TupleList{
diff --git a/JSONQuery/unit.h b/JSONQuery/unit.h
index d54d9e7..ed820af 100644
--- a/JSONQuery/unit.h
+++ b/JSONQuery/unit.h
@@ -52,6 +52,7 @@ static inline void initUnit(Unit* unit)
     unit->count_start_states = -1;
     unit->count_unmatched_symbols = -1;
     unit->num_root = -1;
+    unit->unit_state = 0;
     unit->has_pruned = UNPRUNED;
     unit->start = NULL;
     unit->end = NULL;
diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index fc17feb..7b83208 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -1,6 +1,5 @@
 #include "worker_automaton.h"
 
-#define DFA_INCOMPLETE_INDEX 4
 #define DFA_UNSELECTED_CANDIDATE 5
 
 /* 
@@ -38,8 +37,6 @@ static inline int getMatchedType(JSONQueryDFA* qa, TreeNode* tnode)
         int upper = pair.upper;
         int counter = tnode->count;
         if(!((lower==0&&upper==0)||(counter<upper))) match = 0;
-        //unknown information about array indexes
-        else if(!(lower==0&&upper==0)) match = DFA_INCOMPLETE_INDEX; 
     }
     return match;
 }
@@ -164,6 +161,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
     //initialize lexer
     Lexer lexer;
     initLexer(&lexer, json_stream);
+    char* token_begin = lexer.next_start;
     Token token = nextToken(&lexer);
     int token_type = token.token_type;
 
@@ -300,10 +298,6 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                                 {
                                     addTupleInfo(&qs, start_index, c_node.query_state, "}", tl);
                                 }
-                                else if(matched_type==DFA_INCOMPLETE_INDEX)
-                                {
-                                    addTupleInfo(&qs, start_index, c_node.query_state, "}", tl);  
-                                }
                                 start_index++;
                             }
                         }
@@ -398,10 +392,6 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                                 else addVirtualTupleInfo(&qs, start_index, c_node.query_state, c_node.matched_start, matched_end, tl);
                                 qs.node[start_index].matched_start = INVALID; 
                             }
-                            else if(matched_type==DFA_INCOMPLETE_INDEX)
-                            {
-                                addTupleInfo(&qs, start_index, c_node.query_state, "]", tl);
-                            }
                         }
                         start_index++;
                     }
@@ -564,7 +554,10 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                     else if(syntaxStackTop(&shadow_ss)==LB)  
                     {
                         if(unit.unit_state!=UNIT_MATCHED)
+                        {
                             unit.unit_state = UNIT_MATCHED;
+                            addStartPosition(&unit, token_begin);
+                        }
                         int start_index=qs_elt.start, end_index=qs_elt.end;
                         while(start_index<=end_index)
                         {
@@ -581,6 +574,7 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
                 }
                 break;
         }
+        token_begin = lexer.next_start;
         token = nextToken(&lexer);
         token_type = token.token_type; 
     }
-- 
2.43.0


From 5fc8500f5ff87aff593d4422f10d616afac38021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:22 +0000
Subject: [PATCH 16/37] fix: do not compare key names with the array entry of
 the constraint table

---
 JSONQuery/constraint.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/JSONQuery/constraint.h b/JSONQuery/constraint.h
index 6681e9e..5181076 100644
--- a/JSONQuery/constraint.h
+++ b/JSONQuery/constraint.h
@@ -44,7 +44,7 @@ static inline void updateStateInfo(ConstraintTable* ct, ConstraintInfo* ci)
         char* constraint_key_name = ci->token_name;
         while(i<last)
         {
-            if(strcmp(constraint_key_name, ct->constraint_info[i].token_name)==0)
+            if(ct->constraint_info[i].type==KY && strcmp(constraint_key_name, ct->constraint_info[i].token_name)==0)
             {
                 ci->num_state = ct->constraint_info[i].num_state;
                 int j = 0;
@@ -90,7 +90,7 @@ static inline void addConstraintInfo(ConstraintTable* ct, int state, int type, c
         int i = 0;
         while(i<last)
         {
-            if(strcmp(name, ct->constraint_info[i].token_name)==0)
+            if(ct->constraint_info[i].type==KY && strcmp(name, ct->constraint_info[i].token_name)==0)
             {
                 index = i;
                 break;
-- 
2.43.0


From 02794126f5b32f30efbd3fbb99871eb413a24f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:21 +0000
Subject: [PATCH 17/37] fix: end the last primitive of a unit that is processed
 again

---
 JSONQuery/parallel_automata_execution.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 4dcf1ec..706dd0a 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -298,7 +298,14 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
                 int length = unit.end-unit.start+1;
                 int start_index = unit.start-thread_info[i].input_stream;
                 char* streaming = NULL;
-                if(unit.end>unit.start) streaming = substring(thread_info[i].input_stream, start_index, start_index+length-1);
+                if(unit.end>unit.start)
+                {
+                    //the blank ends a primitive at the end of the unit
+                    streaming = (char*)malloc((length+1)*sizeof(char));
+                    memcpy(streaming, unit.start, length-1);
+                    streaming[length-1] = ' ';
+                    streaming[length] = '\0';
+                }
                 if(unit.end>unit.start && streaming!=NULL)
                 {
                     seq_wa->syntax_stack = ss;
-- 
2.43.0


From 3d74d397a9632d73daacd32dc679c246bd1a7a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:00 +0000
Subject: [PATCH 18/37] fix: let the query stack tree hold every state at every
 depth

---
 JSONQuery/multi_stack.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/JSONQuery/multi_stack.h b/JSONQuery/multi_stack.h
index 9ecb5aa..fe5f967 100644
--- a/JSONQuery/multi_stack.h
+++ b/JSONQuery/multi_stack.h
@@ -6,7 +6,8 @@
 #include "tuple_list.h"
 #include "stack.h"
 
-#define MAX_NODE 500 //max node in query stack tree
+#define MAX_LEVEL_NODE 100 //max node in one level of query stack tree (one for each query state)
+#define MAX_NODE 10000 //max node in query stack tree (MAX_LEVEL_NODE*MAX_STACK)
 #define INVALID -1  //invalid state
 
 typedef struct Range{
@@ -110,11 +111,11 @@ static inline QueryStacksElement queryStacksPush(QueryStacks* qs, QueryStacksEle
       during each iteration, parent pointers and root pointers for one single node might not be placed in consecutive position,
       so we need to record them temporarily, and update stack tree after iteration
     */
-    int parent_pointer[MAX_NODE][MAX_NODE];
-    int num_parent_pointer[MAX_NODE];
+    int parent_pointer[MAX_LEVEL_NODE][MAX_LEVEL_NODE];
+    int num_parent_pointer[MAX_LEVEL_NODE];
 
-    int root_pointer[MAX_NODE][MAX_NODE];
-    int num_root_pointer[MAX_NODE];
+    int root_pointer[MAX_LEVEL_NODE][MAX_LEVEL_NODE];
+    int num_root_pointer[MAX_LEVEL_NODE];
 
     for(i = qs_elt.start; i<=qs_elt.end; i++)
     {
-- 
2.43.0


From cee59322d6f0897ef6b4a8b2be336448a3534132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:41 +0000
Subject: [PATCH 19/37] fix: treat the bytes of a character set and of an
 escape as unsigned

---
 DFABuilder/include/Lexer/utility.hpp | 8 ++++----
 DFABuilder/src/Lexer/charset.cpp     | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/DFABuilder/include/Lexer/utility.hpp b/DFABuilder/include/Lexer/utility.hpp
index 184a6ba..06975c2 100644
--- a/DFABuilder/include/Lexer/utility.hpp
+++ b/DFABuilder/include/Lexer/utility.hpp
@@ -33,7 +33,7 @@ inline regex_char HexStringToDec(const std::string& hex) {
 
 inline regex_char EscapeChar(const char*& tr) {
     int ws;
-    if (*tr != '\\') return *tr;
+    if (*tr != '\\') return (unsigned char)*tr;
     ++tr;
     switch (*tr) {
         // 空白字符集合
@@ -53,7 +53,7 @@ inline regex_char EscapeChar(const char*& tr) {
         case 'U':  // 8 digit hex
             ws = 8;
             break;
-        default: return *tr;
+        default: return (unsigned char)*tr;
     }
     std::string num;
     for (int j = 0; j < ws; ++j) {
@@ -70,7 +70,7 @@ inline regex_char EscapeChar(const char*& tr) {
 
 inline regex_char EscapeChar(std::string::iterator& i, std::string::iterator end) {
     int ws;
-    if (*i != '\\') return *i;
+    if (*i != '\\') return (unsigned char)*i;
     ++i; if (i == end) return -1;
     switch (*i) {
         // 空白字符集合
@@ -89,7 +89,7 @@ inline regex_char EscapeChar(std::string::iterator& i, std::string::iterator end
         case 'U':  // 8 digit hex
             ws = 8;
             break;
-        default: return *i;
+        default: return (unsigned char)*i;
     }
     std::string num;
     for (int j = 0; j < ws; ++j) {
diff --git a/DFABuilder/src/Lexer/charset.cpp b/DFABuilder/src/Lexer/charset.cpp
index 6e0969a..0a4bf9f 100644
--- a/DFABuilder/src/Lexer/charset.cpp
+++ b/DFABuilder/src/Lexer/charset.cpp
@@ -30,7 +30,7 @@ CharSet::CharSet(const std::string& _str) {
                 }
                 isConnector = true;
             } else {
-                regex_char c = *i;
+                regex_char c = (unsigned char)*i;
                 if (c == '\\') c = EscapeChar(i, str.end());
                 if (isConnector) {
                     insert(last, c);
-- 
2.43.0


From 1e0c503fbc96be67d03ffb9314882af7146b28c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:17 +0000
Subject: [PATCH 20/37] fix: keep the negation when a character set is copied
 or compared

---
 DFABuilder/src/Lexer/charset.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DFABuilder/src/Lexer/charset.cpp b/DFABuilder/src/Lexer/charset.cpp
index 0a4bf9f..3bd709e 100644
--- a/DFABuilder/src/Lexer/charset.cpp
+++ b/DFABuilder/src/Lexer/charset.cpp
@@ -11,6 +11,8 @@ CharSet::CharSet() {}
 CharSet::~CharSet() {}
 
 CharSet::CharSet(const CharSet& copy) {
+    negate = copy.negate;
+    str = copy.str;
     eclass_sum = copy.eclass_sum;
     charset.insert(copy.charset.begin(), copy.charset.end());
 }
@@ -123,6 +125,6 @@ bool operator==(const charset_value& q, const charset_value& p) {
 }
 
 bool CharSet::operator==(const CharSet& p) {
-    return (this->charset == p.charset);
+    return (this->negate == p.negate && this->charset == p.charset);
 }
 }  // namespace dragontooth
\ No newline at end of file
-- 
2.43.0


From cd4aa14089b2abe5e829e6cff47e1ef566c35b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:39 +0000
Subject: [PATCH 21/37] fix: merge overlapping intervals of a character set

---
 DFABuilder/src/Lexer/charset.cpp | 46 ++++++++------------------------
 1 file changed, 11 insertions(+), 35 deletions(-)

diff --git a/DFABuilder/src/Lexer/charset.cpp b/DFABuilder/src/Lexer/charset.cpp
index 3bd709e..4a14003 100644
--- a/DFABuilder/src/Lexer/charset.cpp
+++ b/DFABuilder/src/Lexer/charset.cpp
@@ -55,42 +55,18 @@ void CharSet::insert(regex_char p, regex_char q) {
         insert(p);
         return;
     }
-    charset[p].type = 1;
-    charset[q].type = -1;
-    map<regex_char, charset_value>::iterator f, l;
-    auto i = charset.find(p);
-    if (i == charset.begin() ||
-        ((i->first - (--i)->first > 1) && (i->second.type != 1))) {
-        // remove from here, without itself
-        if (i->first == p)
-            f = ++i;
-        else
-            f = ++++i;  // - -!
-    } else {
-        if (i->second.type == 1) {
-            // remove from here, withitself
-            f = ++i;
-        } else {
-            // remove before here
-            f = i;
-        }
-    }
-
-    auto j = charset.find(q);
-    if ((++j) == charset.end() ||
-        (j->first - (--j)->first > 1) && ((++j)->second.type != -1)) {
-        // remove before here
-        l = charset.find(q);
-    } else {
-        if (j->second.type == -1) {
-            // remove before here with itself
-            l = j;
-        } else {
-            // remove after here
-            l = ++j;
-        }
+    // everything in [p, q] is covered by the new interval
+    auto f = charset.lower_bound(p), l = charset.upper_bound(q);
+    // p (or q) may be covered by an interval that begins before p (or ends behind q)
+    bool open_begin = false;
+    if (f != charset.begin()) {
+        auto i = f;
+        open_begin = (--i)->second.type == 1;
     }
-    if (l->first > f->first) charset.erase(l, f);
+    bool open_end = l != charset.end() && l->second.type == -1;
+    charset.erase(f, l);
+    if (!open_begin) charset[p].type = 1;
+    if (!open_end) charset[q].type = -1;
 }
 
 void CharSet::insert(regex_char c) {
-- 
2.43.0


From 1dac197df958878dd5552aad0b42ba261b06be17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:13 +0000
Subject: [PATCH 22/37] fix: let the run-time take input classes above 127

---
 DFABuilder/interface/dragontooth.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DFABuilder/interface/dragontooth.h b/DFABuilder/interface/dragontooth.h
index bf94b98..8de03d9 100644
--- a/DFABuilder/interface/dragontooth.h
+++ b/DFABuilder/interface/dragontooth.h
@@ -396,7 +396,7 @@ static inline void dtl_SetActionCallback(DTLexerState* ls,
 }
 
 static inline uint32_t dtl_nextStateImpl(DTLexerState* ls, uint32_t s,
-                                         char ch) {
+                                         uint32_t ch) {
     int32_t k;
     if (s == 0 || ch == 0) return 0;
     k = ls->m_base[s] + (int32_t)ch;
@@ -407,7 +407,7 @@ static inline uint32_t dtl_nextStateImpl(DTLexerState* ls, uint32_t s,
     }
 }
 
-static inline uint32_t dtl_nextState(DTLexerState* ls, uint32_t s, char ch) {
+static inline uint32_t dtl_nextState(DTLexerState* ls, uint32_t s, uint32_t ch) {
     int32_t k;
     if (s == 0 || ch == 0) return 0;
     k = ls->m_base[s] + (int32_t)ch;
-- 
2.43.0


From dc7e53566f309d055646921fc4d90e1b151802a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:54 +0000
Subject: [PATCH 23/37] fix: pop the begin state that was saved by the last
 push

---
 DFABuilder/interface/dragontooth.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DFABuilder/interface/dragontooth.h b/DFABuilder/interface/dragontooth.h
index 8de03d9..28b1171 100644
--- a/DFABuilder/interface/dragontooth.h
+++ b/DFABuilder/interface/dragontooth.h
@@ -553,7 +553,9 @@ static inline bool dtl_ActionDecode(DTLexerState* ls, uint32_t* begin_state,
         token->action = true;
     }
     if (dtl_checkAction(code, ac_pop)) {
-        *begin_state = dts_Pop(ls->begin_stack);
+        /* go back to the begin state saved by the last push */
+        if (ls->begin_stack->size > 0) *begin_state = dts_Back(ls->begin_stack);
+        dts_Pop(ls->begin_stack);
     }
     if (dtl_checkAction(code, ac_more)) {
         /** ac_more is just like ignore but it will not record the new postion
-- 
2.43.0


From 9cd58e696d15edc8e71aa70d94e59af833b2e5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:45 +0000
Subject: [PATCH 24/37] fix: take a negative number for a number in a filter
 condition

---
 JSONPathParser/jsonpath_evaluator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/JSONPathParser/jsonpath_evaluator.h b/JSONPathParser/jsonpath_evaluator.h
index 3d6be6e..68e0103 100644
--- a/JSONPathParser/jsonpath_evaluator.h
+++ b/JSONPathParser/jsonpath_evaluator.h
@@ -183,7 +183,7 @@ static inline JSONPathValue stringToValue(const char* str) {
         v.vtype = jvt_string; v.string = s;
         return v;
     }
-    if (isdigit(str[0])) {
+    if (isdigit(str[0]) || str[0] == '-') {
         v.vtype = jvt_number; v.number = atof(str);
         return v;
     }
-- 
2.43.0


From a64983cfd8c4563e49ffca416e19e7b04f661d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:45 +0000
Subject: [PATCH 25/37] fix: order only numbers with numbers and strings with
 strings in a filter condition

---
 JSONPathParser/jsonpath_evaluator.h | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/JSONPathParser/jsonpath_evaluator.h b/JSONPathParser/jsonpath_evaluator.h
index 68e0103..afa0047 100644
--- a/JSONPathParser/jsonpath_evaluator.h
+++ b/JSONPathParser/jsonpath_evaluator.h
@@ -118,19 +118,35 @@ static inline JSONPathValue computeBinaryOperator(JSONPathOperatorType opt, JSON
             return v;
         case jot_less:
             v.vtype = jvt_boolean;
-            v.boolean = (v1.number < v2.number);
+            v.boolean = false;
+            if (v1.vtype == v2.vtype && v1.vtype == jvt_number)
+                v.boolean = (v1.number < v2.number);
+            else if (v1.vtype == v2.vtype && v1.vtype == jvt_string)
+                v.boolean = (strcmp(v1.string, v2.string) < 0);
             return v;
         case jot_greater:
             v.vtype = jvt_boolean;
-            v.boolean = (v1.number > v2.number);
+            v.boolean = false;
+            if (v1.vtype == v2.vtype && v1.vtype == jvt_number)
+                v.boolean = (v1.number > v2.number);
+            else if (v1.vtype == v2.vtype && v1.vtype == jvt_string)
+                v.boolean = (strcmp(v1.string, v2.string) > 0);
             return v;
         case jot_leq:
             v.vtype = jvt_boolean;
-            v.boolean = (v1.number <= v2.number);
+            v.boolean = false;
+            if (v1.vtype == v2.vtype && v1.vtype == jvt_number)
+                v.boolean = (v1.number <= v2.number);
+            else if (v1.vtype == v2.vtype && v1.vtype == jvt_string)
+                v.boolean = (strcmp(v1.string, v2.string) <= 0);
             return v;
         case jot_geq:
             v.vtype = jvt_boolean;
-            v.boolean = (v1.number >= v2.number);
+            v.boolean = false;
+            if (v1.vtype == v2.vtype && v1.vtype == jvt_number)
+                v.boolean = (v1.number >= v2.number);
+            else if (v1.vtype == v2.vtype && v1.vtype == jvt_string)
+                v.boolean = (strcmp(v1.string, v2.string) >= 0);
             return v;
         case jot_add:
             v.vtype = jvt_number;
-- 
2.43.0


From 1d8d1f6f6926bbd09f13d45b9721f2e40dba103e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:45 +0000
Subject: [PATCH 26/37] fix: give no value to arithmetic on non-numbers and to
 a modulo by zero

---
 JSONPathParser/jsonpath_evaluator.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/JSONPathParser/jsonpath_evaluator.h b/JSONPathParser/jsonpath_evaluator.h
index afa0047..73b94bf 100644
--- a/JSONPathParser/jsonpath_evaluator.h
+++ b/JSONPathParser/jsonpath_evaluator.h
@@ -88,6 +88,12 @@ static inline JSONPathValue computeBinaryOperator(JSONPathOperatorType opt, JSON
         v1 = computeTypeCast(v1);
         v2 = computeTypeCast(v2);
     }
+    // arithmetic on anything but numbers, or modulo zero, has no value
+    if (opt == jot_add || opt == jot_minus || opt == jot_multiply || opt == jot_div || opt == jot_mod) {
+        v.vtype = jvt_null;
+        if (v1.vtype != jvt_number || v2.vtype != jvt_number) return v;
+        if (opt == jot_mod && (long long int)(v2.number) == 0) return v;
+    }
     // calculate 
     switch (opt) {
         case jot_or:
-- 
2.43.0


From 0bc9b2f1d303c5c9043bfbaadc5e598a0eb3eb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:45 +0000
Subject: [PATCH 27/37] fix: do not use a freed node when a property path is
 folded

---
 JSONPathParser/jsonpath_evaluator.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/JSONPathParser/jsonpath_evaluator.h b/JSONPathParser/jsonpath_evaluator.h
index 73b94bf..8ef25f0 100644
--- a/JSONPathParser/jsonpath_evaluator.h
+++ b/JSONPathParser/jsonpath_evaluator.h
@@ -315,9 +315,10 @@ static inline ASTNode* evaluatorModifyReference(ASTNode* node) {
             free(node->left->string);
             free(node->right->string);
             free(node->right);
+            ASTNode* variable = node->left;
             free(node);
-            node->left->string = name;
-            return node->left;
+            variable->string = name;
+            return variable;
         }
     }
     return NULL;
-- 
2.43.0


From 7f9454a8c2cf0b4537b71f8d22f75d6fbf8511cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:01 +0000
Subject: [PATCH 28/37] fix: output a property that is also a condition of the
 filter

---
 DFABuilder/include/dfa_builder.h    | 5 +++++
 DFABuilder/src/dfa_builder.cpp      | 9 ++++++++-
 JSONPathParser/jsonpath_evaluator.h | 5 +++++
 JSONQuery/predicate.c               | 3 ++-
 4 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/DFABuilder/include/dfa_builder.h b/DFABuilder/include/dfa_builder.h
index 4483878..544eacd 100644
--- a/DFABuilder/include/dfa_builder.h
+++ b/DFABuilder/include/dfa_builder.h
@@ -18,6 +18,7 @@ typedef struct JSONQueryDFAContext {
     ASTNode** subtrees;
     JSONQueryIntVecPair* states_mapping;
     JSONQueryIntVecPair array_predicate_states;
+    int* output_states;
 } JSONQueryDFAContext;
 
 extern JSONQueryDFA* buildJSONQueryDFA(const char* json_path, JSONQueryDFAContext* context);
@@ -40,6 +41,10 @@ static inline int getContextValueOfMapping(JSONQueryDFAContext* ctx, int stop_st
     return ctx->states_mapping[stop_state].value[idx];
 }
 
+static inline int isContextOutputState(JSONQueryDFAContext* ctx, int stop_state) {
+    return ctx->output_states[stop_state];
+}
+
 static inline int getContextSizeOfPredicateStates(JSONQueryDFAContext* ctx) {
     return ctx->array_predicate_states.value_size;
 } 
diff --git a/DFABuilder/src/dfa_builder.cpp b/DFABuilder/src/dfa_builder.cpp
index fbe2b58..b0ddb50 100644
--- a/DFABuilder/src/dfa_builder.cpp
+++ b/DFABuilder/src/dfa_builder.cpp
@@ -127,7 +127,12 @@ struct StackContext {
     bool create_dfa(bool in_predicate = false) {
         string s = getOutput();
         if (check.find(s) == check.end()) check[s] = model->size()+1;
-        else return true;
+        else {
+            // the path exists already (it is a condition of a filter)
+            last_st_generated = true;
+            if (!in_predicate) last_id_generated = check[s];
+            return true;
+        }
         print();
         last_st_generated = true;
         for (auto& se: st) 
@@ -343,12 +348,14 @@ static void create_context(StackContext* ctx, DFACompressed* cpd_dfa, JSONQueryD
     context->states_num = cpd_dfa->getStateSum();
     context->subtrees = (ASTNode**) calloc(cpd_dfa->getStateSum()+1, sizeof(ASTNode*));
     context->states_mapping = (JSONQueryIntVecPair*) calloc(cpd_dfa->getStateSum()+1, sizeof(JSONQueryIntVecPair));
+    context->output_states = (int*) calloc(cpd_dfa->getStateSum()+1, sizeof(int));
     context->array_predicate_states.value_size = 0;
     context->array_predicate_states.value = (int*)calloc(cpd_dfa->getStateSum(), sizeof(int));
     for (int i = 0; i < cpd_dfa->getStateSum(); ++i) {
         int acc = getDFAStopState(m_dfa, i);
         if (acc) {
             context->subtrees[i] = ctx->tree_mapping[acc-1];
+            context->output_states[i] = (m_dfa->accept_type[i] == DFA_OUTPUT_CANDIDATE);
             const auto& vec = ctx->states_mapping[acc-1];
             context->states_mapping[i].value_size = vec.size();
             if (!vec.empty()) {
diff --git a/JSONPathParser/jsonpath_evaluator.h b/JSONPathParser/jsonpath_evaluator.h
index 8ef25f0..4466656 100644
--- a/JSONPathParser/jsonpath_evaluator.h
+++ b/JSONPathParser/jsonpath_evaluator.h
@@ -198,6 +198,11 @@ static inline JSONPathValue stringToValue(const char* str) {
         v.vtype = jvt_boolean; v.boolean = true;
         return v;
     }
+    // an object or an array exists
+    if (str[0] == '{' || str[0] == '[') {
+        v.vtype = jvt_boolean; v.boolean = true;
+        return v;
+    }
     if (str[0] == '"') { 
         char* s = (char*) malloc(sizeof(char) * (len-1));
         strncpy(s, str+1, len-2);
diff --git a/JSONQuery/predicate.c b/JSONQuery/predicate.c
index 2f6e374..2cce26f 100644
--- a/JSONQuery/predicate.c
+++ b/JSONQuery/predicate.c
@@ -93,7 +93,8 @@ Output* generateFinalOutput(PredicateFilter* pf)
             {  
                 pc[index].text = allocate_and_copy(text); 
             }
-            else //add candidate output into buffer
+            //add candidate output into buffer
+            if(isContextOutputState(pf->ctx, state))
             {
                 addOutputElement(buffer, text);
             }
-- 
2.43.0


From 7cf313a12f22d6b098951e6d7809f8cbc5bb133f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:51 +0000
Subject: [PATCH 29/37] fix: keep the conditions of nested filtered objects
 apart

---
 JSONQuery/predicate.c | 23 +++++++++++++++++++----
 JSONQuery/predicate.h |  2 ++
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/JSONQuery/predicate.c b/JSONQuery/predicate.c
index 2cce26f..6c0a382 100644
--- a/JSONQuery/predicate.c
+++ b/JSONQuery/predicate.c
@@ -1,6 +1,20 @@
 #include "predicate.h"
 #include "utility.h"
 
+//conditions of a newly started object, no one has a value
+static PredicateCondition* createConditions(PredicateCondition* names)
+{
+    int size = 0;
+    while(names[size].name!=NULL) size++;
+    PredicateCondition* pc = (PredicateCondition*)malloc((size+1)*sizeof(PredicateCondition));
+    for(int i = 0; i<=size; i++)
+    {
+        pc[i].name = names[i].name;
+        pc[i].text = NULL;
+    }
+    return pc;
+}
+
 Output* generateFinalOutput(PredicateFilter* pf)
 { 
     Output* output = pf->output;//createOutput();  //final results
@@ -40,6 +54,7 @@ Output* generateFinalOutput(PredicateFilter* pf)
             PredicateStackElement ps_elt;
             ps_elt.predicate_state = state;
             ps_elt.output_buffer_pointer = getOutputSize(buffer);
+            ps_elt.conditions = createConditions(pf->predicate_conditions[state]);
             pushPredicateStack(&ps, ps_elt);
         }
         //ending position of an object, needs to evaluate predicate conditions
@@ -47,7 +62,7 @@ Output* generateFinalOutput(PredicateFilter* pf)
         {
             PredicateStackElement ps_elt = getTopPredicateStack(&ps);
             int pred_state = ps_elt.predicate_state;
-            PredicateCondition* pc = pf->predicate_conditions[pred_state];
+            PredicateCondition* pc = ps_elt.conditions;
             ASTNode* node = getContextSubtree(pf->ctx, pred_state);
             //evaluate predicate conditions 
             bool v = evaluateExpression(node, pc); 
@@ -69,15 +84,15 @@ Output* generateFinalOutput(PredicateFilter* pf)
             }  
             //clear the last few elements into buffer
             else removeOutputElement(buffer, rmv_num); 
-            //set the value of evaluate table to default value
+            //the conditions of this object are no longer needed
             clearPredicateCondtion(pc);
+            free(pc);
             popPredicateStack(&ps); 
         }
         else if(getPredicateStackSize(&ps)>0)
         {
             PredicateStackElement ps_elt = getTopPredicateStack(&ps);
-            int pred_state = ps_elt.predicate_state;
-            PredicateCondition* pc = pf->predicate_conditions[pred_state];
+            PredicateCondition* pc = ps_elt.conditions;
         
             //check whether the current state is a predicate condition
             ASTNode* node = getContextSubtree(pf->ctx, state);
diff --git a/JSONQuery/predicate.h b/JSONQuery/predicate.h
index c750410..c823424 100644
--- a/JSONQuery/predicate.h
+++ b/JSONQuery/predicate.h
@@ -15,6 +15,8 @@ typedef struct PredicateStackElement{
     int predicate_state;  
     //point to the first candidate
     int output_buffer_pointer;  
+    //conditions of this object (objects filtered by the same state can be nested)
+    PredicateCondition* conditions;
 }PredicateStackElement;
 
 typedef struct PredicateStack{
-- 
2.43.0


From 22483cf651bf0c952fd569c976aba9b01cd8a557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:04 +0000
Subject: [PATCH 30/37] fix: apply a filter at the end of a path

---
 DFABuilder/src/dfa_builder.cpp |  4 ++-
 JSONQuery/predicate.c          | 48 +++++++++++++++++++++++-----------
 JSONQuery/predicate.h          |  4 +++
 3 files changed, 40 insertions(+), 16 deletions(-)

diff --git a/DFABuilder/src/dfa_builder.cpp b/DFABuilder/src/dfa_builder.cpp
index b0ddb50..a917cea 100644
--- a/DFABuilder/src/dfa_builder.cpp
+++ b/DFABuilder/src/dfa_builder.cpp
@@ -356,6 +356,7 @@ static void create_context(StackContext* ctx, DFACompressed* cpd_dfa, JSONQueryD
         if (acc) {
             context->subtrees[i] = ctx->tree_mapping[acc-1];
             context->output_states[i] = (m_dfa->accept_type[i] == DFA_OUTPUT_CANDIDATE);
+            bool is_filter = ctx->states_mapping.find(acc-1) != ctx->states_mapping.end();
             const auto& vec = ctx->states_mapping[acc-1];
             context->states_mapping[i].value_size = vec.size();
             if (!vec.empty()) {
@@ -364,7 +365,8 @@ static void create_context(StackContext* ctx, DFACompressed* cpd_dfa, JSONQueryD
                     context->states_mapping[i].value[j] = acc_id2state(cpd_dfa, vec[j]+1);
                 }
             }
-            if (m_dfa->accept_type[i] == DFA_PREDICATE) {
+            // (a filter at the end of the path is an output as well)
+            if (m_dfa->accept_type[i] == DFA_PREDICATE || (is_filter && context->output_states[i])) {
                 int k = context->array_predicate_states.value_size++;
                 context->array_predicate_states.value[k] = i;
             }
diff --git a/JSONQuery/predicate.c b/JSONQuery/predicate.c
index 6c0a382..eb0a51c 100644
--- a/JSONQuery/predicate.c
+++ b/JSONQuery/predicate.c
@@ -15,6 +15,15 @@ static PredicateCondition* createConditions(PredicateCondition* names)
     return pc;
 }
 
+//condition of the given variable
+static PredicateCondition* findCondition(PredicateCondition* pc, ASTNode* node)
+{
+    if(pc==NULL || node==NULL || node->node_type!=jnt_variable) return NULL;
+    for(; pc->name!=NULL; pc++)
+        if(pc->name==node->string) return pc;
+    return NULL;
+}
+
 Output* generateFinalOutput(PredicateFilter* pf)
 { 
     Output* output = pf->output;//createOutput();  //final results
@@ -37,6 +46,11 @@ Output* generateFinalOutput(PredicateFilter* pf)
        return output; 
     }
 
+    //whether objects are filtered before the end of the path
+    bool outer_filter = false;
+    for(s = 0; s < MAX_PREDICATE_STATE; s++)
+        if(pf->predicate_conditions[s]!=NULL && !isContextOutputState(pf->ctx, s)) outer_filter = true;
+
     if(pf->buffer==NULL) pf->buffer = createOutput();
     Output* buffer = pf->buffer;   //temporary buffer pf->buffer; //
     PredicateStack ps = pf->pstack;
@@ -89,29 +103,33 @@ Output* generateFinalOutput(PredicateFilter* pf)
             free(pc);
             popPredicateStack(&ps); 
         }
-        else if(getPredicateStackSize(&ps)>0)
+        else
         {
-            PredicateStackElement ps_elt = getTopPredicateStack(&ps);
-            PredicateCondition* pc = ps_elt.conditions;
-        
+            int size = getPredicateStackSize(&ps);
             //check whether the current state is a predicate condition
             ASTNode* node = getContextSubtree(pf->ctx, state);
-            int index = 0;
-            while(node!=NULL)
-            {  
-                if(pc[index].name==NULL) break;
-                if(strcmp(pc[index].name, node->string)==0) break;
-                index++;
-            }
+            PredicateCondition* pc = NULL;
+            bool filtered = (pf->predicate_conditions[state]!=NULL);
+            if(size>0 && !filtered) pc = findCondition(getTopPredicateStack(&ps).conditions, node);
+            if(pc==NULL && !filtered) pc = findCondition(pf->last_conditions, node);
             //update value for predicate condition
-            if(node!=NULL&&pc[index].name!=NULL)
+            if(pc!=NULL)
             {  
-                pc[index].text = allocate_and_copy(text); 
+                if(pc->text!=NULL) free(pc->text);
+                pc->text = allocate_and_copy(text); 
             }
-            //add candidate output into buffer
             if(isContextOutputState(pf->ctx, state))
             {
-                addOutputElement(buffer, text);
+                bool v = true;
+                //an object filtered at the end of the path, its conditions are all known
+                if(filtered)
+                {
+                    v = (text[0]=='{' && evaluateExpression(node, pf->last_conditions));
+                    clearPredicateCondtion(pf->last_conditions);
+                }
+                //add it into final output list if there is no other filter, or into buffer
+                if(v && size>0) addOutputElement(buffer, text);
+                else if(v && !outer_filter) addOutputElement(output, text);
             }
         }
     }
diff --git a/JSONQuery/predicate.h b/JSONQuery/predicate.h
index c823424..faaf949 100644
--- a/JSONQuery/predicate.h
+++ b/JSONQuery/predicate.h
@@ -31,6 +31,8 @@ typedef struct PredicateFilter{
     //condition list for each predicate state
     PredicateCondition* predicate_conditions[MAX_PREDICATE_STATE];
     PredicateStack pstack;
+    //conditions of the filter at the end of the path
+    PredicateCondition* last_conditions;
     //save output buffer
     Output* buffer;
     //save final results
@@ -73,6 +75,7 @@ static inline void initPredicateFilter(PredicateFilter* pf, TupleList* tl, JSONQ
     //initialize state mapping table
     for(int i = 0; i<MAX_PREDICATE_STATE; i++)
         pf->predicate_conditions[i] = NULL;
+    pf->last_conditions = NULL;
     for(int i = 0; i < pred_size; i++)
     {
     	int pred_state = getContextPredicateStates(ctx, i);
@@ -89,6 +92,7 @@ static inline void initPredicateFilter(PredicateFilter* pf, TupleList* tl, JSONQ
             pc[j].text = NULL;
         }
         pc[con_size].name=NULL;
+        if(isContextOutputState(ctx, pred_state)) pf->last_conditions = pc;
     }
     pf->buffer = NULL;
     pf->output = createOutput();
-- 
2.43.0


From 5a88e69c5d09011e5ce92a503a1524c8c52cc927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:04 +0000
Subject: [PATCH 31/37] fix: find the condition states of a filter by their
 path

---
 DFABuilder/src/dfa_builder.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/DFABuilder/src/dfa_builder.cpp b/DFABuilder/src/dfa_builder.cpp
index a917cea..b254478 100644
--- a/DFABuilder/src/dfa_builder.cpp
+++ b/DFABuilder/src/dfa_builder.cpp
@@ -335,14 +335,14 @@ static JSONQueryDFA* create_dfa(StackContext* ctx, DFACompressed* cpd_dfa) {
     return dfa;
 }
 
-static int acc_id2state(DFACompressed* cpd_dfa, int acc) {
-    for (int i = 0; i < cpd_dfa->getStateSum(); ++i) {
-        if (acc == cpd_dfa->isStopState(i)) {
-            return i;
-        }
-    }
-    return -1;
-} 
+// the state where the path of a filter's variable leads to from the filter's state
+static int variable2state(JSONQueryDFA* m_dfa, int state, ASTNode* variable) {
+    std::istringstream tokenStream(variable->string);
+    std::string token;
+    while (std::getline(tokenStream, token, '.'))
+        state = dfaNextStateByStr(m_dfa, state, (char*)token.c_str());
+    return state;
+}
 
 static void create_context(StackContext* ctx, DFACompressed* cpd_dfa, JSONQueryDFA* m_dfa, JSONQueryDFAContext* context) {
     context->states_num = cpd_dfa->getStateSum();
@@ -350,6 +350,7 @@ static void create_context(StackContext* ctx, DFACompressed* cpd_dfa, JSONQueryD
     context->states_mapping = (JSONQueryIntVecPair*) calloc(cpd_dfa->getStateSum()+1, sizeof(JSONQueryIntVecPair));
     context->output_states = (int*) calloc(cpd_dfa->getStateSum()+1, sizeof(int));
     context->array_predicate_states.value_size = 0;
+    map<int, ASTNode*> variables;
     context->array_predicate_states.value = (int*)calloc(cpd_dfa->getStateSum(), sizeof(int));
     for (int i = 0; i < cpd_dfa->getStateSum(); ++i) {
         int acc = getDFAStopState(m_dfa, i);
@@ -357,12 +358,15 @@ static void create_context(StackContext* ctx, DFACompressed* cpd_dfa, JSONQueryD
             context->subtrees[i] = ctx->tree_mapping[acc-1];
             context->output_states[i] = (m_dfa->accept_type[i] == DFA_OUTPUT_CANDIDATE);
             bool is_filter = ctx->states_mapping.find(acc-1) != ctx->states_mapping.end();
-            const auto& vec = ctx->states_mapping[acc-1];
+            const auto vec = is_filter ? ctx->states_mapping[acc-1] : vector<int>();
             context->states_mapping[i].value_size = vec.size();
             if (!vec.empty()) {
                 context->states_mapping[i].value = (int*)calloc(vec.size(), sizeof(int));
                 for (int j = 0; j < vec.size(); ++j) {
-                    context->states_mapping[i].value[j] = acc_id2state(cpd_dfa, vec[j]+1);
+                    ASTNode* variable = ctx->tree_mapping[vec[j]];
+                    int state = variable2state(m_dfa, i, variable);
+                    context->states_mapping[i].value[j] = state;
+                    variables[state] = variable;
                 }
             }
             // (a filter at the end of the path is an output as well)
@@ -372,6 +376,8 @@ static void create_context(StackContext* ctx, DFACompressed* cpd_dfa, JSONQueryD
             }
         }
     }
+    // (another step of the path may lead to the same state)
+    for (const auto& p : variables) context->subtrees[p.first] = p.second;
 }
 
 JSONQueryDFA* buildJSONQueryDFA(const char* json_path, JSONQueryDFAContext* context) {
-- 
2.43.0


From c5fc2ea51f7932c032860812198468ef0a96e650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:44 +0000
Subject: [PATCH 32/37] fix: reject a query with a character no token starts
 with

---
 JSONPathParser/scanner_j.l | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/JSONPathParser/scanner_j.l b/JSONPathParser/scanner_j.l
index 6acfec3..0596da3 100644
--- a/JSONPathParser/scanner_j.l
+++ b/JSONPathParser/scanner_j.l
@@ -88,7 +88,7 @@ Digits			[0-9]+
 
 {NCName}				SAVE_TOKEN; return NCNAME;
 
-.						printf("tokenizer error\n");
+.						printf("tokenizer error\n"); return (unsigned char)yytext[0]; /* no rule has it */
 
 %%
 
-- 
2.43.0


From 4f5285485b5ebb7ecfc4c2aa147e5a6af1c1aaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:44 +0000
Subject: [PATCH 33/37] fix: && binds tighter than || and % like * and /

---
 JSONPathParser/parser_j.y | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/JSONPathParser/parser_j.y b/JSONPathParser/parser_j.y
index ef61cca..2b4a00e 100644
--- a/JSONPathParser/parser_j.y
+++ b/JSONPathParser/parser_j.y
@@ -39,10 +39,11 @@ void jerror (JLTYPE * yylloc, yyscan_t locp, ASTNode **root, const char *msg);
 %type <node> AllPath LocationPath Number Property IndexList Predicate Expr  
 %start AllPath
 
-%left OR AND
+%left OR
+%left AND
 %left NEQ LEQ GEQ EQ '<' '>'
 %left '+' '-'
-%left '*' '/' 
+%left '*' '/' '%'
 %right '!'
 %left '('
 
-- 
2.43.0


From d900ea919297944dfb5483da62d9895e65e3800d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:43 +0000
Subject: [PATCH 34/37] fix: do not write past the copy of a string

---
 JSONQuery/lexing.c  | 5 +++--
 JSONQuery/utility.c | 1 -
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/JSONQuery/lexing.c b/JSONQuery/lexing.c
index 7f03580..26331b5 100644
--- a/JSONQuery/lexing.c
+++ b/JSONQuery/lexing.c
@@ -145,8 +145,9 @@ Token nextToken(Lexer* lexer)
                         {
                             lexer->content[0]='"';
                             strcopy(sub1, lexer->content+1);
-                            lexer->content[strlen(lexer->content)]='"'; 
-                            lexer->content[strlen(lexer->content)+1]='\0'; 
+                            templen = strlen(lexer->content);
+                            lexer->content[templen]='"';
+                            lexer->content[templen+1]='\0';
                             lexer->current_start = lexer->current_pointer+1; 
                             lexer->lex_state = 0; 
                             lexer->next_start = p+1; 
diff --git a/JSONQuery/utility.c b/JSONQuery/utility.c
index 2225c39..184d723 100644
--- a/JSONQuery/utility.c
+++ b/JSONQuery/utility.c
@@ -15,7 +15,6 @@ void strcopy(char* src,char* dest)
 	{
 		dest[i]=src[i];
 	}
-	dest[i]='\0';
 }
 
 /**************************************************************************
-- 
2.43.0


From 705a8b10bc5e4b34bec28037594bbc4d5b23925b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:43 +0000
Subject: [PATCH 35/37] fix: grow the stack of unions by elements, not bytes

---
 DFABuilder/interface/dragontooth.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DFABuilder/interface/dragontooth.h b/DFABuilder/interface/dragontooth.h
index 28b1171..dbedc53 100644
--- a/DFABuilder/interface/dragontooth.h
+++ b/DFABuilder/interface/dragontooth.h
@@ -175,7 +175,7 @@ static inline my_union_t dts_BackUnion(DTStackUnion* s) { return s->data[s->size
 
 static inline void dts_PushUnion(DTStackUnion* s, my_union_t data) {
     if (s->size == s->max_size) {
-        s->data = (my_union_t*)realloc(s->data, s->max_size * 2);
+        s->data = (my_union_t*)realloc(s->data, s->max_size * 2 * sizeof(my_union_t));
         // TODO: Becareful with the memory realloc failed
         s->max_size *= 2;
     }
-- 
2.43.0


From 83dc41465931fd52c5ecd463b7bc0f812c4565f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:43 +0000
Subject: [PATCH 36/37] fix: start a parallel run with a known finish flag

---
 JSONQuery/parallel_automata_execution.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 706dd0a..737d8f3 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -46,6 +46,7 @@ static inline void initParallelAutomata(ParallelAutomata* pa, JSONQueryDFA* qa)
     pa->query_automaton = qa;
     pa->tuple_list = NULL;
     pa->major_automaton = NULL;
+    pa->finish_flag = INPROGRESS;
 }
 
 static inline void destroyParallelAutomata(ParallelAutomata* pa)
-- 
2.43.0


From 4d00b6b19ff770e3b2e9ad811ff484f9d4c3e2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:05 +0000
Subject: [PATCH 37/37] fix: keep the text of open results between the loads of
 a parallel run

---
 JSONQuery/parallel_automata_execution.h | 44 ++++++++++++++++++++++++-
 JSONQuery/worker_automaton.c            |  4 +++
 JSONQuery/worker_automaton.h            |  3 ++
 3 files changed, 50 insertions(+), 1 deletion(-)

diff --git a/JSONQuery/parallel_automata_execution.h b/JSONQuery/parallel_automata_execution.h
index 737d8f3..1682ef8 100644
--- a/JSONQuery/parallel_automata_execution.h
+++ b/JSONQuery/parallel_automata_execution.h
@@ -39,6 +39,8 @@ typedef struct ParallelAutomata{
     TupleList* tuple_list;
     WorkerAutomaton* major_automaton;
     int finish_flag;
+    // text of the objects and arrays that are still open after the last input stream
+    char* open_text;
 }ParallelAutomata;
 
 static inline void initParallelAutomata(ParallelAutomata* pa, JSONQueryDFA* qa)
@@ -47,6 +49,7 @@ static inline void initParallelAutomata(ParallelAutomata* pa, JSONQueryDFA* qa)
     pa->tuple_list = NULL;
     pa->major_automaton = NULL;
     pa->finish_flag = INPROGRESS;
+    pa->open_text = NULL;
 }
 
 static inline void destroyParallelAutomata(ParallelAutomata* pa)
@@ -67,6 +70,11 @@ static inline void destroyParallelAutomata(ParallelAutomata* pa)
             destroyWorkerAutomaton(pa->major_automaton);  
         }
     }
+    if(pa->open_text != NULL && pa->finish_flag==FINISH)
+    {
+        free(pa->open_text);
+        pa->open_text = NULL;
+    }
 }
 
 //main function for each thread
@@ -373,19 +381,51 @@ TupleList* combine(ThreadInfo* thread_info, int num_thread)
     return tuple_list;
 }
 
+//matched objects and arrays may end in the next input stream, get their text from the first open one on
+static inline char* getOpenText(ThreadInfo* thread_info, int num_thread)
+{
+    QueryStacks* qs = &thread_info[0].worker_automaton->query_stacks;
+    int i, open_start = INVALID;
+    for(i = 0; i<qs->num_node; i++)
+        if(qs->node[i].matched_start!=INVALID && (open_start==INVALID || qs->node[i].matched_start<open_start))
+            open_start = qs->node[i].matched_start;
+    if(open_start==INVALID) return NULL;
+    for(i = 0; i<qs->num_node; i++)
+        if(qs->node[i].matched_start!=INVALID) qs->node[i].matched_start -= open_start;
+    int chunk_begin[MAX_THREAD+1];
+    chunk_begin[0] = 0;
+    for(i = 0; i<num_thread; i++)
+        chunk_begin[i+1] = chunk_begin[i] + strlen(thread_info[i].input_stream);
+    return getCrossChunkText(thread_info, chunk_begin, open_start, num_thread-1, chunk_begin[num_thread]-chunk_begin[num_thread-1]);
+}
+
 //par_info -- partitioned input stream, qa -- query automaton
 void executeParallelAutomata(ParallelAutomata* pa, PartitionInfo par_info, ConstraintTable* ct)  
 {
     int num_cores = par_info.num_chunk;
     JSONQueryDFA* qa = pa->query_automaton;
     ThreadInfo ti[MAX_THREAD]; 
+    char* joined_stream = NULL;
     int i;
     for(i = 0; i<num_cores; i++)
     {
         //initialize each thread
         ti[i].thread_id = i;
         ti[i].input_stream = par_info.stream[i];
-        if((i==0)&&(pa->major_automaton!=NULL))  ti[i].worker_automaton = pa->major_automaton;  
+        if((i==0)&&(pa->major_automaton!=NULL))
+        {
+            ti[i].worker_automaton = pa->major_automaton;
+            if(pa->open_text!=NULL)
+            {
+                pa->major_automaton->open_len = strlen(pa->open_text);
+                joined_stream = (char*)malloc((pa->major_automaton->open_len+strlen(ti[i].input_stream)+1)*sizeof(char));
+                strcpy(joined_stream, pa->open_text);
+                strcat(joined_stream, ti[i].input_stream);
+                ti[i].input_stream = joined_stream;
+                free(pa->open_text);
+                pa->open_text = NULL;
+            }
+        }
         else 
             ti[i].worker_automaton = createWorkerAutomaton(qa, i, ct);
         int rc=pthread_create(&ti[i].thread, NULL, main_thread, &ti[i]);  
@@ -404,6 +444,8 @@ void executeParallelAutomata(ParallelAutomata* pa, PartitionInfo par_info, Const
     pa->query_stacks = ti[0].worker_automaton->query_stacks;
     pa->tuple_list = tl;
     pa->major_automaton = ti[0].worker_automaton;
+    pa->open_text = getOpenText(ti, num_cores);
+    if(joined_stream!=NULL) free(joined_stream);
     for (i = 1; i <num_cores; i++)
     {
         freeWorkerAutomaton(ti[i].worker_automaton); 
diff --git a/JSONQuery/worker_automaton.c b/JSONQuery/worker_automaton.c
index 7b83208..f4a11e8 100644
--- a/JSONQuery/worker_automaton.c
+++ b/JSONQuery/worker_automaton.c
@@ -161,6 +161,10 @@ void executeWorkerAutomaton(WorkerAutomaton* wa, char* json_stream)
     //initialize lexer
     Lexer lexer;
     initLexer(&lexer, json_stream);
+    lexer.current_pointer += wa->open_len;
+    lexer.current_start += wa->open_len;
+    lexer.next_start += wa->open_len;
+    wa->open_len = 0;
     char* token_begin = lexer.next_start;
     Token token = nextToken(&lexer);
     int token_type = token.token_type;
diff --git a/JSONQuery/worker_automaton.h b/JSONQuery/worker_automaton.h
index 4a38b49..d2d9e72 100644
--- a/JSONQuery/worker_automaton.h
+++ b/JSONQuery/worker_automaton.h
@@ -45,6 +45,8 @@ typedef struct WorkerAutomaton{
     // whether the input stream needs to be reprocessed
     int need_reprocess;
     int initial_flag;
+    // length of the text in front of the next input stream that open results have started in
+    int open_len;
 }WorkerAutomaton;
 
 // wa -- worker automaton qa -- query automaton
@@ -56,6 +58,7 @@ static inline void initWorkerAutomaton(WorkerAutomaton* wa, JSONQueryDFA* qa)
     wa->tuple_list = createTupleList();
     wa->need_reprocess = NOREPROCESS;
     wa->initial_flag = NOINITIAL;
+    wa->open_len = 0;
 }
 
 static inline void destroyWorkerAutomaton(WorkerAutomaton* wa)
-- 
2.43.0

