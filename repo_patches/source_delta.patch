From ba4cb12423f58c252b6782b78cf39903b8ccfef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:21 +0000
Subject: [PATCH 01/36] fix: initialise the bound override flags of new
 datatypes

Type_struct left o_lb and o_ub of every derived type uninitialised unless a
bound was overridden, so extents depended on the contents of fresh memory.
---
 type.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/type.c b/type.c
index 4e7d661..6f4a6ab 100644
--- a/type.c
+++ b/type.c
@@ -312,6 +312,8 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
                ((simpletype_count-1) * sizeof(typepair)));
 
   temp->count = simpletype_count;
+  temp->o_lb = 0;
+  temp->o_ub = 0;
 
   i = 0;         //old type's index
   newcount = 0;  //new type's index
-- 
2.43.0


From d988ff298aa9f4aa4522ba1073f369283af89ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:21 +0000
Subject: [PATCH 02/36] fix: make MPI_Aint a signed type

Negative displacements and lower bounds compare as huge values when MPI_Aint
is unsigned, so explicit negative MPI_LB/MPI_UB bounds were ignored or wrong.
---
 mpi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpi.h b/mpi.h
index 82cff25..b66e48f 100644
--- a/mpi.h
+++ b/mpi.h
@@ -63,7 +63,7 @@ typedef int MPI_Group;
  * Data types etc.
  */
 
-typedef unsigned long int MPI_Aint;
+typedef long int MPI_Aint;
 #define MPI_BOTTOM (0)
 #define MPI_IN_PLACE (void *)(-1)
 typedef int MPI_Datatype;
-- 
2.43.0


From b02d32e0d6f60ae64c9224ff7d50a22890d10374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:04 +0000
Subject: [PATCH 03/36] fix: give datatypes without elements size, bounds and
 extent 0

A count of 0, or only zero block lengths, left lb at INT_MAX, ub at INT_MIN,
read an uninitialised typemap entry when such a type was used as an old type,
and let a constituent that occurs zero times set an explicit bound.
---
 type.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/type.c b/type.c
index 6f4a6ab..bb40d36 100644
--- a/type.c
+++ b/type.c
@@ -45,7 +45,7 @@ Datatype* mpi_handle_to_datatype(int handle)
 
 int calc_padding(Datatype datatype)
 {
-  long size_max = INT_MIN;
+  long size_max = 1;   //a type without elements needs no padding
   long type_len;
   int i;
   //find the largest datatype size.  The epsilon padding is (probably) based on this.
@@ -150,6 +150,10 @@ long calc_lb(Datatype type)
   int min_disp = INT_MAX;
   typepair * tp;
 
+  //a type without elements is empty at 0
+  if (type->count == 0)
+    return 0;
+
   for(i =0; i < type->count; i++)
   {
     tp =  type->pairs+i;
@@ -171,6 +175,9 @@ long calc_ub(Datatype type)
   long max_disp = INT_MIN;
   typepair * tp;
 
+  if (type->count == 0)
+    return 0;
+
   for(i = 0; i < type->count; i++)
   {
     tp = type->pairs+i;
@@ -277,14 +284,14 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
     // cases and will be skipped over
 
     temp2 = oldtypes_ptr[i];
-    if (temp2->pairs[0].type == SIMPLE_LOWER)
+    if (temp2->count && temp2->pairs[0].type == SIMPLE_LOWER)
     {
       //found MPI_LB.  This is a candidate for the actual lb
       if (new_lb > displacements[i])
         new_lb = displacements[i];
       override_lower = 1;
     }
-    else if (temp2->pairs[0].type == SIMPLE_UPPER)
+    else if (temp2->count && temp2->pairs[0].type == SIMPLE_UPPER)
     {
       //same as above, but ub
       if (new_ub < displacements[i])
@@ -297,11 +304,11 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
       //However it may still have overriding bounds
       //Test for these and add its size to the typemap.
 
-      if (temp2->o_lb)
+      if (temp2->o_lb && blocklens[i] > 0)
         // this type's lb has been overridden.
         // ONLY an overriding lb can be the actual lb now.
         override_lower = 1;
-      if (temp2->o_ub)
+      if (temp2->o_ub && blocklens[i] > 0)
         //same as above, but ub
         override_upper = 1;
 
@@ -326,8 +333,9 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
 
     //test for previous MPI_LB or MPI_UB in one of the comprising types.
     //If found, skip over.
-    if (!((temp2->pairs[0].type == SIMPLE_LOWER) ||
-          (temp2->pairs[0].type == SIMPLE_UPPER)))
+    if (!(temp2->count &&
+          ((temp2->pairs[0].type == SIMPLE_LOWER) ||
+           (temp2->pairs[0].type == SIMPLE_UPPER))))
     {
       for (j = 0; j < blocklens[i]; j++)
       {
-- 
2.43.0


From 2f9fc5b29949bf97144c32ba1c82fd89836add47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:25 +0000
Subject: [PATCH 04/36] fix: keep displacements, bounds and extents in 64 bits

calc_lb, the extent padding, the offsets in Pcopy_data2 and the displacements
of the v-collectives went through int, so data beyond 2 GB was read from or
written to the wrong place.
---
 collective.c | 10 +++++-----
 copy.c       |  2 +-
 type.c       |  6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/collective.c b/collective.c
index 39c5361..607fd66 100644
--- a/collective.c
+++ b/collective.c
@@ -108,7 +108,7 @@ int MPI_Gatherv(void* sendbuf, int sendcount, MPI_Datatype sendtype,
 		void* recvbuf, int *recvcounts, int *displs,
 		MPI_Datatype recvtype, int root, MPI_Comm comm)
 {
-  int offset;
+  MPI_Aint offset;
   MPI_Aint rt_extent;
 
   if (sendbuf==MPI_IN_PLACE)
@@ -186,7 +186,7 @@ int MPI_Allgatherv(void* sendbuf, int sendcount, MPI_Datatype sendtype,
 		   void* recvbuf, int *recvcounts, int *displs,
                    MPI_Datatype recvtype, MPI_Comm comm)
 {
-  int offset;
+  MPI_Aint offset;
   MPI_Aint rt_extent;
 
   if (sendbuf==MPI_IN_PLACE)
@@ -266,7 +266,7 @@ int MPI_Scatterv(void* sendbuf, int *sendcounts, int *displs,
 		 MPI_Datatype sendtype, void* recvbuf, int recvcount,
 		 MPI_Datatype recvtype, int root, MPI_Comm comm)
 {
-  int offset;
+  MPI_Aint offset;
   MPI_Aint st_extent;
 
   if (recvbuf==MPI_IN_PLACE)
@@ -449,8 +449,8 @@ int MPI_Alltoallv(void *sendbuf, int *sendcounts,
                   MPI_Comm comm)
 
 {
-  int send_offset;
-  int recv_offset;
+  MPI_Aint send_offset;
+  MPI_Aint recv_offset;
   MPI_Aint st_extent;
   MPI_Aint rt_extent;
 
diff --git a/copy.c b/copy.c
index f231600..90601cc 100644
--- a/copy.c
+++ b/copy.c
@@ -43,7 +43,7 @@ int Pcopy_data2(void *source, int src_count, Datatype src_type,
                 void *dest, int dest_count, Datatype dest_type)
 {
   int i;
-  int soffset, doffset;
+  MPI_Aint soffset, doffset;
   MPI_Aint src_extent, dest_extent;
 
   //commit checking here, since if any datatype is used in this function
diff --git a/type.c b/type.c
index bb40d36..8f058ef 100644
--- a/type.c
+++ b/type.c
@@ -147,7 +147,7 @@ int Simpletype_length(Simpletype t)
 long calc_lb(Datatype type)
 {
   int i;
-  int min_disp = INT_MAX;
+  long min_disp = LONG_MAX;
   typepair * tp;
 
   //a type without elements is empty at 0
@@ -172,7 +172,7 @@ long calc_lb(Datatype type)
 long calc_ub(Datatype type)
 {
   int i;
-  long max_disp = INT_MIN;
+  long max_disp = LONG_MIN;
   typepair * tp;
 
   if (type->count == 0)
@@ -199,7 +199,7 @@ int Type_extent(Datatype datatype, MPI_Aint * extent)
   {
     int epsilon = calc_padding(datatype);
     //current epsilon value is based off of largest datatype size
-    int mod = (datatype->ub - datatype->lb) % epsilon;
+    long mod = (datatype->ub - datatype->lb) % epsilon;
     if (mod == 0)
       epsilon = 0;
     else
-- 
2.43.0


From f5554bf99f16bc577627ab98030c79a4918efe19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:33 +0000
Subject: [PATCH 05/36] fix: MPI_INTEGER16 has a size

Simpletype_length lacked it, so any use of MPI_INTEGER16 ended the program
with "Invalid simple type".
---
 type.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/type.c b/type.c
index 8f058ef..3946589 100644
--- a/type.c
+++ b/type.c
@@ -115,6 +115,8 @@ int Simpletype_length(Simpletype t)
       return 4; break;
     case SIMPLE_FINTEGER8:
       return 8; break;
+    case SIMPLE_FINTEGER16:
+      return 16; break;
     case SIMPLE_FREAL4:
       return 4; break;
     case SIMPLE_FREAL8:
-- 
2.43.0


From 847dd03f8dd4c938208272cad464616736c4372e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:41 +0000
Subject: [PATCH 06/36] fix: define MPI_SIGNED_CHAR and MPI_WCHAR

mpi.h names them (-46 and -47), but the table of predefined types had null
entries there, so that any use of them crashed.
---
 type.c       |  4 ++++
 type.h       |  3 +++
 type_const.c | 10 +++++++++-
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/type.c b/type.c
index 3946589..d4dde27 100644
--- a/type.c
+++ b/type.c
@@ -135,6 +135,10 @@ int Simpletype_length(Simpletype t)
       return sizeof(unsigned long long); break;
     case SIMPLE_OFFSET:
       return sizeof(MPI_Offset); break;
+    case SIMPLE_SCHAR:
+      return sizeof(signed char); break;
+    case SIMPLE_WCHAR:
+      return sizeof(wchar_t); break;
 
     default:
       printf("Invalid simple type\n");
diff --git a/type.h b/type.h
index f495289..069b9a2 100644
--- a/type.h
+++ b/type.h
@@ -79,6 +79,9 @@ typedef Typestruct* Datatype;
 
 #define SIMPLE_OFFSET      34
 
+#define SIMPLE_SCHAR       35
+#define SIMPLE_WCHAR       36
+
 //internal type functions
 int Simpletype_length(Simpletype s);
 int Type_extent(Datatype datatype, MPI_Aint * extent);
diff --git a/type_const.c b/type_const.c
index 6afa7f0..e025f5b 100644
--- a/type_const.c
+++ b/type_const.c
@@ -161,6 +161,14 @@ Typestruct TSoffset = {.count = 1,   .lb = 0,   .ub=sizeof(MPI_Offset),
                             .committed=1, .o_lb = 0, .o_ub = 0, .pairs[0]=
 			    {.disp = 0,   .type = (Simpletype) SIMPLE_OFFSET }};
 
+Typestruct TSschar = {.count = 1,   .lb = 0,   .ub=sizeof(signed char),
+                            .committed=1, .o_lb = 0, .o_ub = 0, .pairs[0]=
+			    {.disp = 0,   .type = (Simpletype) SIMPLE_SCHAR }};
+
+Typestruct TSwchar = {.count = 1,   .lb = 0,   .ub=sizeof(wchar_t),
+                            .committed=1, .o_lb = 0, .o_ub = 0, .pairs[0]=
+			    {.disp = 0,   .type = (Simpletype) SIMPLE_WCHAR }};
+
 
 
  /* RML NOTE: the order and numbering of the elements of simpletypes[] MUST match
@@ -180,7 +188,7 @@ Typestruct TSoffset = {.count = 1,   .lb = 0,   .ub=sizeof(MPI_Offset),
                        &TSinteger2, &TSinteger4  , &TSinteger8   , &TSinteger16,  //32
                        &TSreal4	  , &TSreal8	 , &TSreal16     , &TScomplex8,   //36
                        &TScomplex16, &TScomplex32, &TSlonglong   , &TSulonglong,  //40
-                       &TSoffset
+                       &TSoffset  , &TSschar     , &TSwchar                       //44
                        };
 
 
-- 
2.43.0


From 660029d96b993bc3ce0db90944ec888fc4fef948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:54 +0000
Subject: [PATCH 07/36] fix: MPI_Type_dup copies the whole type and exists

The duplicate was allocated with the size of a pointer and its pair
count was not set; the C entry point declared in mpi.h was missing.
---
 type.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/type.c b/type.c
index d4dde27..61e0fba 100644
--- a/type.c
+++ b/type.c
@@ -685,7 +685,9 @@ int Type_dup(Datatype oldtype, Datatype *newtype)
 {
   int i;
   //create a deep copy of given Datatype
-  *newtype = malloc(sizeof(oldtype));
+  *newtype = malloc(sizeof(Typestruct) +
+                    ((oldtype->count-1) * sizeof(typepair)));
+  (*newtype)->count = oldtype->count;
   (*newtype)->committed = oldtype->committed;
   (*newtype)->lb = oldtype->lb;
   (*newtype)->ub = oldtype->ub;
@@ -700,6 +702,22 @@ int Type_dup(Datatype oldtype, Datatype *newtype)
   return MPI_SUCCESS;
 }
 
+int FC_FUNC( mpi_type_dup, MPI_TYPE_DUP )
+         (int * oldtype, int * newtype, int * ierr)
+{
+  *ierr = MPI_Type_dup(*oldtype, newtype);
+  return MPI_SUCCESS;
+}
+
+int MPI_Type_dup(MPI_Datatype oldtype, MPI_Datatype * newtype)
+{
+  Datatype old_ptr = *(Datatype*) mpi_handle_to_datatype(oldtype);
+  Datatype * new_ptr;
+
+  mpi_alloc_handle(newtype, (void**) &new_ptr);
+  return Type_dup(old_ptr, new_ptr);
+}
+
 /* MPI_Type_size:  Returns the sum of the lengths of each simple
  * type that makes up the data type argument
  */
-- 
2.43.0


From e7881c0b114ba5bc76c7d817a63611dbee55ddc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:44 +0000
Subject: [PATCH 08/36] fix: MPI_Type_free sets the handle to MPI_DATATYPE_NULL

It cleared a local pointer instead, so that the caller kept a handle to
freed memory.
---
 type.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/type.c b/type.c
index 61e0fba..91f4134 100644
--- a/type.c
+++ b/type.c
@@ -849,9 +849,9 @@ int MPI_Type_free(MPI_Datatype * datatype)
 {
   Datatype type_ptr = *(Datatype*) mpi_handle_to_datatype(*datatype);
   free(type_ptr);
-  type_ptr = MPI_DATATYPE_NULL;
 
   mpi_free_handle(*datatype);
+  *datatype = MPI_DATATYPE_NULL;
 
   return MPI_SUCCESS;
 }
-- 
2.43.0


From cc8b45c596ee0a77d8be3e8c284fa93716c549d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:51 +0000
Subject: [PATCH 09/36] fix: a receive takes what was sent, in the sender's
 layout

A receive that found its send pending read the send buffer with the
receiver's count and datatype, and a receive posted first ended the
program when its buffer was larger than the message.
---
 copy.c | 15 +++++++--------
 recv.c |  2 +-
 send.c |  2 ++
 3 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/copy.c b/copy.c
index 90601cc..99a5a3c 100644
--- a/copy.c
+++ b/copy.c
@@ -43,6 +43,7 @@ int Pcopy_data2(void *source, int src_count, Datatype src_type,
                 void *dest, int dest_count, Datatype dest_type)
 {
   int i;
+  int elements;
   MPI_Aint soffset, doffset;
   MPI_Aint src_extent, dest_extent;
 
@@ -55,19 +56,17 @@ int Pcopy_data2(void *source, int src_count, Datatype src_type,
     exit(-1);
   }
 
-  // A receive of less elements than sent
-  // is valid, but the reverse is a violation
+  // The receiver may ask for less or for more elements than were sent:
+  // transfer those that are on both sides
 
-  if (src_type->count * src_count < dest_type->count * dest_count)
-  {
-    printf("copy_data: Trying to over-receive\n");
-    exit(1);
-  }
+  elements = src_type->count * src_count;
+  if (elements > dest_type->count * dest_count)
+    elements = dest_type->count * dest_count;
 
   Type_extent(src_type, &src_extent);
   Type_extent(dest_type, &dest_extent);
 
-  for (i = 0; i < dest_count * dest_type->count; i++)
+  for (i = 0; i < elements; i++)
   {
 
 #ifdef TYPE_CHECKING
diff --git a/recv.c b/recv.c
index 37aa2c4..e31b1a1 100644
--- a/recv.c
+++ b/recv.c
@@ -78,7 +78,7 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
       AP_list_delete_item(mycomm->sendlist,match);
 
 //      memcpy(buf,sreq->buf,count * datatype);
-      copy_data2(sreq->buf, count, datatype, buf, count, datatype);
+      copy_data2(sreq->buf, sreq->count, sreq->type, buf, count, datatype);
       rreq->complete=1;
       rreq->source=0;
       rreq->tag=sreq->tag;                   /* in case tag was MPI_ANY_TAG */
diff --git a/send.c b/send.c
index b2a0475..10862a4 100644
--- a/send.c
+++ b/send.c
@@ -83,6 +83,8 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
     }
 
   sreq->buf=buf;
+  sreq->count=count;
+  sreq->type=datatype;
   sreq->tag=tag;
   sreq->complete=0;
   sreq->listitem=AP_list_append(mycomm->sendlist,sreq);
-- 
2.43.0


From 2444e342933f3edf7a7fead730c7a7b2662003be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:26 +0000
Subject: [PATCH 10/36] fix: statuses carry the number of elements in the
 message

Only MPI_Recv stored a count, the receiver's; every other completion
call and the probes left it unset.  Statuses now hold the number of
basic elements delivered, from which MPI_Get_count and MPI_Get_elements
answer.
---
 copy.c     |  2 +-
 getcount.c | 15 ++++++++++++---
 mpi.h      |  2 +-
 mpiP.h     |  3 ++-
 probe.c    |  3 +++
 recv.c     |  7 +++----
 req.c      |  2 ++
 send.c     |  5 +++--
 8 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/copy.c b/copy.c
index 99a5a3c..f898aab 100644
--- a/copy.c
+++ b/copy.c
@@ -83,7 +83,7 @@ int Pcopy_data2(void *source, int src_count, Datatype src_type,
 
     memcpy(dest+doffset, source+soffset, Simpletype_length(dest_type->pairs[i % dest_type->count].type));
   }
-  return MPI_SUCCESS;
+  return elements;
 }
 
 
diff --git a/getcount.c b/getcount.c
index 565f107..12de57f 100644
--- a/getcount.c
+++ b/getcount.c
@@ -18,7 +18,17 @@ int FC_FUNC( mpi_get_count , MPI_GET_COUNT )
 
 int MPI_Get_count(MPI_Status *status, MPI_Datatype datatype, int *count)
 {
-  *count = status->get_count;
+  Datatype dt_ptr = *(Datatype*)mpi_handle_to_datatype(datatype);
+
+  /* the status counts basic elements: give whole items of datatype */
+
+  if (status->get_count == 0)
+    *count = 0;
+  else if (dt_ptr->count == 0 || status->get_count % dt_ptr->count != 0)
+    *count = MPI_UNDEFINED;
+  else
+    *count = status->get_count / dt_ptr->count;
+
   return(MPI_SUCCESS);
 }
 
@@ -36,8 +46,7 @@ int FC_FUNC( mpi_get_elements , MPI_GET_ELEMENTS )
 
 int MPI_Get_elements(MPI_Status *status, MPI_Datatype datatype, int *count)
 {
-  Datatype dt_ptr = *(Datatype*)mpi_handle_to_datatype(datatype);
-  *count = status->get_count * dt_ptr->count;
+  *count = status->get_count;
   return(MPI_SUCCESS);
 }
 
diff --git a/mpi.h b/mpi.h
index b66e48f..a765586 100644
--- a/mpi.h
+++ b/mpi.h
@@ -185,7 +185,7 @@ typedef struct                  /* Fortran: INTEGER status(MPI_STATUS_SIZE) */
   MPI_Status_int MPI_SOURCE;    /* Fortran: status(MPI_SOURCE) */
   MPI_Status_int MPI_TAG;       /* Fortran: status(MPI_TAG) */
   MPI_Status_int MPI_ERROR;     /* Fortran: status(MPI_ERROR) */
-  int            get_count;     /* Number specified for send */
+  int            get_count;     /* Basic elements in message */
 
 } MPI_Status;
 
diff --git a/mpiP.h b/mpiP.h
index b03794f..be91e3e 100644
--- a/mpiP.h
+++ b/mpiP.h
@@ -99,13 +99,14 @@ typedef struct
   int tag;
   int complete;
   int count;
+  int elements;              /* basic elements delivered by the match */
   MPI_Datatype type;  /* needed for test_simple_bindexed2 */
 } Req;
 
 
 /****************************************************************************/
 
-/* copy functions */
+/* copy functions (return the number of basic elements copied) */
 extern int copy_data2(void * source, int src_count, MPI_Datatype src_type,
                       void * dest, int dest_count, MPI_Datatype dest_type);
 
diff --git a/probe.c b/probe.c
index 8b66042..d1b6259 100644
--- a/probe.c
+++ b/probe.c
@@ -1,5 +1,6 @@
 //probe.c
 #include "mpiP.h"
+#include "type.h"
 
 static int mpi_match_send(void *r, void *tag)
 {
@@ -53,6 +54,8 @@ int MPI_Iprobe(int source, int tag, MPI_Comm comm, int *flag,
 	{
 	  status->MPI_SOURCE=0  ;
 	  status->MPI_TAG= sreq->tag;
+	  status->get_count= sreq->count *
+	    (*(Datatype*) mpi_handle_to_datatype(sreq->type))->count;
 	}
     }
 
diff --git a/recv.c b/recv.c
index e31b1a1..6da8136 100644
--- a/recv.c
+++ b/recv.c
@@ -62,6 +62,7 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
   mpi_alloc_handle(request,(void **)&rreq);
   rreq->type = datatype;
   rreq->count = count;
+  rreq->elements = 0;
   if (source==MPI_PROC_NULL)
     {
       rreq->complete=1;
@@ -78,7 +79,8 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
       AP_list_delete_item(mycomm->sendlist,match);
 
 //      memcpy(buf,sreq->buf,count * datatype);
-      copy_data2(sreq->buf, sreq->count, sreq->type, buf, count, datatype);
+      rreq->elements=copy_data2(sreq->buf, sreq->count, sreq->type,
+                                buf, count, datatype);
       rreq->complete=1;
       rreq->source=0;
       rreq->tag=sreq->tag;                   /* in case tag was MPI_ANY_TAG */
@@ -134,9 +136,6 @@ int MPI_Recv(void *buf, int count, MPI_Datatype datatype, int source,
   MPI_Irecv(buf,count,datatype,source,tag,comm,&request);
   MPI_Wait(&request,status);
 
-  if (status!=MPI_STATUS_IGNORE)
-    status->get_count = count;   // rml: shouldn't this depend on send?
-
   return(MPI_SUCCESS);
 }
 
diff --git a/req.c b/req.c
index 6049663..ad6c4b9 100644
--- a/req.c
+++ b/req.c
@@ -26,6 +26,7 @@ int MPI_Test(MPI_Request *request, int *flag, MPI_Status *status)
 	{
 	  status->MPI_TAG= MPI_ANY_TAG;
 	  status->MPI_SOURCE= MPI_ANY_SOURCE;
+	  status->get_count= 0;
 	}
       *flag=1;
       return(MPI_SUCCESS);
@@ -42,6 +43,7 @@ int MPI_Test(MPI_Request *request, int *flag, MPI_Status *status)
 	{
 	  status->MPI_SOURCE= req->source;
 	  status->MPI_TAG= req->tag;
+	  status->get_count= req->elements;
 	}
 
       mpi_free_handle(*request);
diff --git a/send.c b/send.c
index 10862a4..9b5b7cd 100644
--- a/send.c
+++ b/send.c
@@ -55,7 +55,7 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
     }
 
   mpi_alloc_handle(request,(void **) &sreq);
-
+  sreq->elements=0;
 
   if (dest==MPI_PROC_NULL)
     {
@@ -67,7 +67,8 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
       rreq=(Req *)AP_listitem_data(match);
       AP_list_delete_item(mycomm->recvlist,match);
 
-      copy_data2(buf, count, datatype, rreq->buf, rreq->count, rreq->type);
+      rreq->elements=copy_data2(buf, count, datatype,
+                                rreq->buf, rreq->count, rreq->type);
       rreq->complete=1;
       rreq->source=0;
       rreq->tag=tag;                    /* in case rreq->tag was MPI_ANY_TAG */
-- 
2.43.0


From ce42e4b3feb3a3a94849921edbc6c3c2a8a6384b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:03 +0000
Subject: [PATCH 11/36] fix: MPI_Testany and MPI_Waitany report the index and
 skip null requests

The index was never stored, and a null request counted as completed.
---
 req.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/req.c b/req.c
index ad6c4b9..de04507 100644
--- a/req.c
+++ b/req.c
@@ -87,6 +87,8 @@ int FC_FUNC( mpi_waitany , MPI_WAITANY )(int *count, int *requests,
 {
 
   *ierror=MPI_Waitany(*count, (void *)requests,index,mpi_c_status(status));
+  if (*index!=MPI_UNDEFINED)
+    (*index)++;                   /* Fortran counts from 1 */
   return MPI_SUCCESS;
 }
 
@@ -122,6 +124,8 @@ int FC_FUNC(mpi_testany, MPI_TESTANY)
 {
   *ierr = MPI_Testany(*count, array_of_requests, index,
                       flag, mpi_c_status(status));
+  if (*index!=MPI_UNDEFINED)
+    (*index)++;                   /* Fortran counts from 1 */
   return MPI_SUCCESS;
 }
 
@@ -129,15 +133,29 @@ int MPI_Testany(int count,  MPI_Request *array_of_requests,
                 int *index, int *flag, MPI_Status *status)
 {
   int i;
+  int active=0;
+  MPI_Request none=MPI_REQUEST_NULL;
 
   for (i=0; i<count; i++)
     {
+      if (array_of_requests[i]==MPI_REQUEST_NULL)
+        continue;
+
+      active=1;
       MPI_Test(&array_of_requests[i],flag,status);
 
       if (*flag)
-        return(MPI_SUCCESS);
+        {
+          *index=i;
+          return(MPI_SUCCESS);
+        }
     }
 
+  *index=MPI_UNDEFINED;
+
+  if (!active)                    /* true, with an empty status */
+    return(MPI_Test(&none,flag,status));
+
   /* none are completed */
 
   *flag=0;
-- 
2.43.0


From f237e7457a78a1e975cd186f65e3974787e5d8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:11 +0000
Subject: [PATCH 12/36] fix: MPI_Testall is all or nothing; MPI_STATUSES_IGNORE
 is honoured

Testall completed and freed some of the requests while reporting false,
and both Testall and Waitall wrote statuses through a null pointer when
given MPI_STATUSES_IGNORE.
---
 req.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/req.c b/req.c
index de04507..dc89b6d 100644
--- a/req.c
+++ b/req.c
@@ -180,17 +180,27 @@ int MPI_Testall(int count, MPI_Request *array_of_requests,
 {
   int i;
   int iflag;
+  Req *req;
 
   *flag = 1;
 
-  for (i=0; i<count && flag; i++)
+  /* complete all of them or none */
+
+  for (i=0; i<count; i++)
   {
-      MPI_Test(&array_of_requests[i],&iflag,&array_of_statuses[i]);
+      if (array_of_requests[i]==MPI_REQUEST_NULL)
+        continue;
 
-      if (!iflag)
+      req=mpi_handle_to_ptr(array_of_requests[i]);
+      if (!req->complete)
         *flag=0;
   }
 
+  for (i=0; i<count && *flag; i++)
+      MPI_Test(&array_of_requests[i],&iflag,
+               array_of_statuses==MPI_STATUSES_IGNORE ?
+                 MPI_STATUS_IGNORE : &array_of_statuses[i]);
+
   return(MPI_SUCCESS);
 }
 
@@ -218,7 +228,9 @@ int MPI_Waitall(int count, MPI_Request *array_of_requests,
 
   for (i=0; i<count; i++)
     {
-      MPI_Test(&array_of_requests[i],&flag,&array_of_statuses[i]);
+      MPI_Test(&array_of_requests[i],&flag,
+               array_of_statuses==MPI_STATUSES_IGNORE ?
+                 MPI_STATUS_IGNORE : &array_of_statuses[i]);
 
       if (!flag)
         {
-- 
2.43.0


From 96699536e17945a3c026aac28015707de437de99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:18 +0000
Subject: [PATCH 13/36] fix: MPI_Testsome and MPI_Waitsome report which
 requests completed

No indices were stored, null requests counted as completed, statuses did
not line up with the indices, MPI_STATUSES_IGNORE was dereferenced, and
Waitsome tested the pointer instead of the count for deadlock.
---
 req.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/req.c b/req.c
index dc89b6d..00ebfac 100644
--- a/req.c
+++ b/req.c
@@ -250,8 +250,12 @@ int FC_FUNC(mpi_testsome, MPI_TESTSOME)
          (int * incount, int * array_of_requests, int * outcount,
           int * array_of_indices, int * array_of_statuses, int * ierr)
 {
+  int i;
+
   *ierr = MPI_Testsome(*incount, array_of_requests, outcount,
 		       array_of_indices, mpi_c_statuses(array_of_statuses));
+  for (i=0; i<*outcount; i++)     /* Fortran counts from 1 */
+    array_of_indices[i]++;
   return MPI_SUCCESS;
 }
 
@@ -260,17 +264,27 @@ int MPI_Testsome(int incount, MPI_Request *array_of_requests, int *outcount,
 {
   int i;
   int flag;
+  int active=0;
 
   *outcount = 0;
   for (i=0; i<incount; i++)
   {
+      if (array_of_requests[i]==MPI_REQUEST_NULL)
+        continue;
+
+      active=1;
       flag=0;
-      MPI_Test(&array_of_requests[i],&flag,&array_of_statuses[i]);
-      
+      MPI_Test(&array_of_requests[i],&flag,
+               array_of_statuses==MPI_STATUSES_IGNORE ?
+                 MPI_STATUS_IGNORE : &array_of_statuses[*outcount]);
+
       if (flag)
-	  (*outcount)++;
+	  array_of_indices[(*outcount)++]=i;
   }
 
+  if (!active)
+    *outcount = MPI_UNDEFINED;
+
   return(MPI_SUCCESS);
 
 }
@@ -283,8 +297,12 @@ int FC_FUNC(mpi_waitsome, MPI_WAITSOME)
          (int * incount, int * array_of_requests, int * outcount,
           int * array_of_indices, int *array_of_statuses, int * ierr)
 {
+  int i;
+
   *ierr = MPI_Waitsome(*incount, array_of_requests, outcount,
 		       array_of_indices, mpi_c_statuses(array_of_statuses));
+  for (i=0; i<*outcount; i++)     /* Fortran counts from 1 */
+    array_of_indices[i]++;
   return MPI_SUCCESS;
 }
 
@@ -294,7 +312,7 @@ int MPI_Waitsome(int incount, MPI_Request *array_of_requests, int *outcount,
   MPI_Testsome(incount, array_of_requests, outcount,
                array_of_indices, array_of_statuses);
 
-  if (!outcount)
+  if (*outcount==0)
   {
     fprintf(stderr,"Waitsome: No requests complete, deadlock\n");
     abort();
-- 
2.43.0


From 935a9b2d300f40034603bbb13392d661bae9eb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:29 +0000
Subject: [PATCH 14/36] fix: MPI_Request_free of a pending request keeps the
 operation

The request was returned to the free list while still queued, so that
the next allocation overwrote it and its match corrupted another
object.
---
 mpiP.h |  3 +++
 recv.c |  4 +++-
 req.c  | 25 +++++++++++++++++++++++--
 send.c |  6 ++++--
 4 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/mpiP.h b/mpiP.h
index be91e3e..125c301 100644
--- a/mpiP.h
+++ b/mpiP.h
@@ -98,6 +98,8 @@ typedef struct
   int source;
   int tag;
   int complete;
+  int handle;                /* of this request */
+  int freed;                 /* MPI_Request_free'd before completion */
   int count;
   int elements;              /* basic elements delivered by the match */
   MPI_Datatype type;  /* needed for test_simple_bindexed2 */
@@ -119,6 +121,7 @@ extern void mpi_destroy_handles(void);
 extern void mpi_alloc_handle(int *handle, void **data);
 extern void *mpi_handle_to_ptr(int handle);
 extern void mpi_free_handle(int handle);
+extern void mpi_req_complete(Req *req);
 
 extern void FC_FUNC(mpi_get_fort_pointers,MPI_GET_FORT_POINTERS)(void);
 
diff --git a/recv.c b/recv.c
index 6da8136..c92bc46 100644
--- a/recv.c
+++ b/recv.c
@@ -62,6 +62,8 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
   mpi_alloc_handle(request,(void **)&rreq);
   rreq->type = datatype;
   rreq->count = count;
+  rreq->handle=*request;
+  rreq->freed=0;
   rreq->elements = 0;
   if (source==MPI_PROC_NULL)
     {
@@ -85,7 +87,7 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
       rreq->source=0;
       rreq->tag=sreq->tag;                   /* in case tag was MPI_ANY_TAG */
 
-      sreq->complete=1;
+      mpi_req_complete(sreq);
 
 #ifdef DEBUG
       printf("Completion(recv) value=%d tag=%d\n",
diff --git a/req.c b/req.c
index 00ebfac..1595110 100644
--- a/req.c
+++ b/req.c
@@ -322,9 +322,19 @@ int MPI_Waitsome(int incount, MPI_Request *array_of_requests, int *outcount,
 }
 
 /***********************/
-/* Request_free:  Frees the handle and request
+/* Request_free:  Frees the handle and request.  If the operation is
+ * still pending, it will be carried out, and the request freed, when
+ * its match is posted.
  */
 
+void mpi_req_complete(Req *req)
+{
+  req->complete=1;
+
+  if (req->freed)
+    mpi_free_handle(req->handle);
+}
+
 int FC_FUNC(mpi_request_free, MPI_REQUEST_FREE)
          (int * request, int * ierr)
 {
@@ -334,7 +344,18 @@ int FC_FUNC(mpi_request_free, MPI_REQUEST_FREE)
 
 int MPI_Request_free(MPI_Request * req)
 {
-  mpi_free_handle(*req);
+  Req *r;
+
+  if (*req!=MPI_REQUEST_NULL)
+    {
+      r=mpi_handle_to_ptr(*req);
+
+      if (r->complete)
+        mpi_free_handle(*req);
+      else
+        r->freed=1;
+    }
+
   *req = MPI_REQUEST_NULL;
   return (MPI_SUCCESS);
 }
diff --git a/send.c b/send.c
index 9b5b7cd..973d408 100644
--- a/send.c
+++ b/send.c
@@ -55,6 +55,8 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
     }
 
   mpi_alloc_handle(request,(void **) &sreq);
+  sreq->handle=*request;
+  sreq->freed=0;
   sreq->elements=0;
 
   if (dest==MPI_PROC_NULL)
@@ -69,15 +71,15 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
 
       rreq->elements=copy_data2(buf, count, datatype,
                                 rreq->buf, rreq->count, rreq->type);
-      rreq->complete=1;
       rreq->source=0;
       rreq->tag=tag;                    /* in case rreq->tag was MPI_ANY_TAG */
+      mpi_req_complete(rreq);
 
       sreq->complete=1;
 
 #ifdef DEBUG
       printf("Completion(send) value=%d tag=%d\n",
-	     *((int *)buf),rreq->tag);
+	     *((int *)buf),tag);
 #endif
 
       return(MPI_SUCCESS);
-- 
2.43.0


From ec4eb7929c522c0406b61d31bf5671c1d5d7c29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:37 +0000
Subject: [PATCH 15/36] fix: MPI_IN_PLACE in reduce, scan, reduce_scatter and
 alltoall

These dereferenced the MPI_IN_PLACE value, and the Fortran bindings of
these and of allreduce did not recognise Fortran's MPI_IN_PLACE.
---
 collective.c | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/collective.c b/collective.c
index 607fd66..2bae3f9 100644
--- a/collective.c
+++ b/collective.c
@@ -300,7 +300,7 @@ int FC_FUNC( mpi_reduce , MPI_REDUCE )
 			 int *datatype, int *op, int *root, int *comm,
 			 int *ierror)
 {
-  *ierror=MPI_Reduce(sendbuf, recvbuf, *count,
+  *ierror=MPI_Reduce(mpi_c_in_place(sendbuf), recvbuf, *count,
 		     *datatype, *op, *root, *comm);
   return MPI_SUCCESS;
 }
@@ -317,6 +317,9 @@ int MPI_Reduce(void* sendbuf, void* recvbuf, int count,
       abort();
     }
 
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   copy_data2(sendbuf, count, datatype, recvbuf, count, datatype);
 //  memcpy(recvbuf,sendbuf,count * datatype);
 
@@ -331,7 +334,7 @@ int FC_FUNC( mpi_allreduce , MPI_ALLREDUCE )
                           ( void *sendbuf, void *recvbuf, int *count,
 			    int *datatype, int *op, int *comm, int *ierror)
 {
-  *ierror=MPI_Allreduce(sendbuf, recvbuf, *count,
+  *ierror=MPI_Allreduce(mpi_c_in_place(sendbuf), recvbuf, *count,
 			*datatype, *op, *comm);
   return MPI_SUCCESS;
 
@@ -364,7 +367,8 @@ int FC_FUNC(mpi_reduce_scatter, MPI_REDUCE_SCATTER)
                 (void * sendbuf, void * recvbuf, int *recvcounts,
                  int *datatype, int *op, int *comm, int *ierr)
 {
-  *ierr = MPI_Reduce_scatter(sendbuf, recvbuf, recvcounts, *datatype, *op, *comm);
+  *ierr = MPI_Reduce_scatter(mpi_c_in_place(sendbuf), recvbuf, recvcounts,
+                             *datatype, *op, *comm);
   return MPI_SUCCESS;
 }
 
@@ -372,6 +376,9 @@ int FC_FUNC(mpi_reduce_scatter, MPI_REDUCE_SCATTER)
 int MPI_Reduce_scatter(void* sendbuf, void* recvbuf, int *recvcounts,
                          MPI_Datatype datatype, MPI_Op op, MPI_Comm comm)
 {
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   copy_data2(sendbuf, recvcounts[0], datatype, recvbuf, recvcounts[0], datatype);
   return MPI_SUCCESS;
 }
@@ -385,7 +392,7 @@ int FC_FUNC( mpi_scan , MPI_SCAN)
                          int *datatype, int *op, int *comm,
                          int *ierror)
 {
-  *ierror=MPI_Scan( sendbuf, recvbuf, *count,
+  *ierror=MPI_Scan( mpi_c_in_place(sendbuf), recvbuf, *count,
                     *datatype, *op, *comm);
   return MPI_SUCCESS;
 }
@@ -395,6 +402,9 @@ int FC_FUNC( mpi_scan , MPI_SCAN)
 int MPI_Scan(void* sendbuf, void* recvbuf, int count,
              MPI_Datatype datatype, MPI_Op op, MPI_Comm comm )
 {
+    if (sendbuf==MPI_IN_PLACE)
+      return(MPI_SUCCESS);
+
     copy_data2(sendbuf, count, datatype, recvbuf, count, datatype);
 
     return(MPI_SUCCESS);
@@ -408,7 +418,7 @@ int FC_FUNC( mpi_alltoall , MPI_ALLTOALL )
 			  void *recvbuf, int *recvcount, int *recvtype,
                           int *comm, int *ierror )
 {
-  *ierror=MPI_Alltoall(sendbuf, *sendcount, *sendtype,
+  *ierror=MPI_Alltoall(mpi_c_in_place(sendbuf), *sendcount, *sendtype,
 		       recvbuf, *recvcount, *recvtype,
 		       *comm);
   return MPI_SUCCESS;
@@ -419,6 +429,9 @@ int MPI_Alltoall(void *sendbuf, int sendcount, MPI_Datatype sendtype,
 		 void *recvbuf, int recvcount, MPI_Datatype recvtype,
 		 MPI_Comm comm)
 {
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   copy_data2(sendbuf, sendcount, sendtype, recvbuf, recvcount, recvtype);
 //  memcpy(recvbuf,sendbuf,sendcount * sendtype);
 
@@ -435,7 +448,7 @@ int FC_FUNC( mpi_alltoallv , MPI_ALLTOALLV )
              int *comm, int *ierror )
 {
 
-  *ierror=MPI_Alltoallv(sendbuf, sendcounts, sdispls, *sendtype,
+  *ierror=MPI_Alltoallv(mpi_c_in_place(sendbuf), sendcounts, sdispls, *sendtype,
 			recvbuf, recvcounts, rdispls, *recvtype,
 			*comm);
 
@@ -454,6 +467,9 @@ int MPI_Alltoallv(void *sendbuf, int *sendcounts,
   MPI_Aint st_extent;
   MPI_Aint rt_extent;
 
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   MPI_Type_extent(sendtype, &st_extent);
   MPI_Type_extent(recvtype, &rt_extent);
 
@@ -480,7 +496,7 @@ int FC_FUNC( mpi_alltoallw , MPI_ALLTOALLW )
              int *comm, int *ierror )
 {
 
-  *ierror=MPI_Alltoallw(sendbuf, sendcounts, sdispls, sendtypes,
+  *ierror=MPI_Alltoallw(mpi_c_in_place(sendbuf), sendcounts, sdispls, sendtypes,
 			recvbuf, recvcounts, rdispls, recvtypes,
 			*comm);
 
@@ -495,6 +511,8 @@ int MPI_Alltoallw(void *sendbuf, int *sendcounts,
                   MPI_Comm comm)
 
 {
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
 
   copy_data2((char*)sendbuf+sdispls[0], sendcounts[0], sendtypes[0],
              (char*)recvbuf+rdispls[0], recvcounts[0], recvtypes[0]);
-- 
2.43.0


From d4bbdcd79e27d0b307f56abb7cb4528f0d2a1c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:44 +0000
Subject: [PATCH 16/36] fix: MPI_Intercomm_merge returns a communicator

It assigned a local pointer and left the output argument unset; the
Fortran binding was missing.
---
 ic_merge.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ic_merge.c b/ic_merge.c
index e6465c1..6fe58eb 100644
--- a/ic_merge.c
+++ b/ic_merge.c
@@ -3,13 +3,18 @@
 
 /*
  * MPI_Intercomm_merge - Creates an intracommunicator from an intercommunicator
- * This is just a stub for now to support mpi function calls even in Serial
- * applications. In the case of a serial program, this function is a no-op and
- * only ever returns MPI_SUCCESS
+ * In the case of a serial program, this is a new communicator for the one
+ * process.
  */
 
+int FC_FUNC(mpi_intercomm_merge, MPI_INTERCOMM_MERGE)
+     (int *intercomm, int *high, int *newintracomm, int *ierr)
+{
+  *ierr = MPI_Intercomm_merge(*intercomm, *high, newintracomm);
+  return MPI_SUCCESS;
+}
+
 int MPI_Intercomm_merge( MPI_Comm intercomm, int high, MPI_Comm *newintracomm )
 {
-  newintracomm =  &intercomm;
-  return(MPI_SUCCESS);
+  return(MPI_Comm_dup(intercomm, newintracomm));
 }
-- 
2.43.0


From f0a6dc11868e13615aff107e8fc8346f34e0f7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:51 +0000
Subject: [PATCH 17/36] fix: MPI_Pack_size is silent and returns an INTEGER to
 Fortran

It printed its result, and mpi_pack_size stored eight bytes into the
caller's INTEGER.
---
 pack.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pack.c b/pack.c
index e7efba2..25c134e 100644
--- a/pack.c
+++ b/pack.c
@@ -70,14 +70,16 @@ int Pack_size(int incount, Datatype datatype,
         *size += Simpletype_length(datatype->pairs[i].type);
     }
     *size *= incount;
-    printf("Size = %d\n", *size);
   return MPI_SUCCESS;
 }
 
 int FC_FUNC( mpi_pack_size, MPI_PACK_SIZE )(int * incount, int * datatype,
-                                          int * comm, MPI_Aint * size, int *ierr)
+                                          int * comm, int * size, int *ierr)
 {
-  *ierr = MPI_Pack_size(*incount, *datatype, *comm, size);
+  MPI_Aint lsize;
+
+  *ierr = MPI_Pack_size(*incount, *datatype, *comm, &lsize);
+  *size = lsize;
   return MPI_SUCCESS;
 }
 
-- 
2.43.0


From d5ef0500c451c5047f00c1036dd0f43e0ccb7f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:59 +0000
Subject: [PATCH 18/36] fix: Fortran hvector reads blocklength as an INTEGER

It was read as eight bytes, taking in whatever follows the argument.
---
 type.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/type.c b/type.c
index 91f4134..b291c08 100644
--- a/type.c
+++ b/type.c
@@ -500,7 +500,7 @@ int Type_hvector(int count, int blocklen, MPI_Aint stride,
 }
 
 int FC_FUNC( mpi_type_hvector, MPI_TYPE_HVECTOR )
-         (int * count,   long * blocklen, long * stride,
+         (int * count,   int * blocklen, MPI_Aint * stride,
           int * oldtype, int * newtype,   int * ierr)
 {
   *ierr = MPI_Type_hvector(*count, *blocklen, *stride, *oldtype, newtype);
@@ -518,7 +518,7 @@ int MPI_Type_hvector(int count, int blocklen, MPI_Aint stride,
 }
 
 int FC_FUNC( mpi_type_create_hvector, MPI_TYPE_CREATE_HVECTOR )
-         (int * count,   long * blocklen, long * stride,
+         (int * count,   int * blocklen, MPI_Aint * stride,
           int * oldtype, int * newtype,   int * ierr)
 {
   *ierr = MPI_Type_create_hvector(*count, *blocklen, *stride, *oldtype, newtype);
-- 
2.43.0


From 86f6ca95111cb351d19e3b42a149b7ac30ca9fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:59 +0000
Subject: [PATCH 19/36] fix: type constructors take any count

Their work arrays were on the stack, which a large count overflowed.
---
 handles.c |  6 +++---
 mpiP.h    |  2 +-
 type.c    | 54 ++++++++++++++++++++++++++++++++++++++----------------
 3 files changed, 42 insertions(+), 20 deletions(-)

diff --git a/handles.c b/handles.c
index 7618498..58a272c 100644
--- a/handles.c
+++ b/handles.c
@@ -76,15 +76,15 @@ static Handleitem *nextfree;
 
 /************************************************************************/
 
-void *mpi_malloc(int size)
+void *mpi_malloc(size_t size)
 {
   void *ret;
 
-  ret=malloc(size);
+  ret=malloc(size ? size : 1);
 
   if (!ret)
     {
-      fprintf(stderr,"mpi_malloc: failed to allocate %d bytes\n",size);
+      fprintf(stderr,"mpi_malloc: failed to allocate %zu bytes\n",size);
       abort();
     }
 
diff --git a/mpiP.h b/mpiP.h
index 125c301..0c0874f 100644
--- a/mpiP.h
+++ b/mpiP.h
@@ -112,7 +112,7 @@ typedef struct
 extern int copy_data2(void * source, int src_count, MPI_Datatype src_type,
                       void * dest, int dest_count, MPI_Datatype dest_type);
 
-extern void *mpi_malloc(int size);
+extern void *mpi_malloc(size_t size);
 extern void mpi_free(void *ptr);
 
 extern MPI_Comm mpi_comm_new(void);
diff --git a/type.c b/type.c
index b291c08..2ffaaef 100644
--- a/type.c
+++ b/type.c
@@ -420,7 +420,8 @@ int MPI_Type_struct(int count, int * blocklens, MPI_Aint * displacements,
                     MPI_Datatype *oldtypes,     MPI_Datatype *newtype)
 {
     int i;
-    Datatype oldtypes_ptr[count];
+    int ret;
+    Datatype *oldtypes_ptr = mpi_malloc(count * sizeof(Datatype));
     Datatype * newtype_ptr;
 
     for (i = 0; i < count; i++)
@@ -430,8 +431,10 @@ int MPI_Type_struct(int count, int * blocklens, MPI_Aint * displacements,
 
     mpi_alloc_handle(newtype, (void**) &newtype_ptr);
 
-    return Type_struct(count, blocklens, displacements,
+    ret = Type_struct(count, blocklens, displacements,
                        oldtypes_ptr, newtype_ptr);
+    mpi_free(oldtypes_ptr);
+    return ret;
 }
 
 /*******************************************************/
@@ -443,9 +446,10 @@ int MPI_Type_struct(int count, int * blocklens, MPI_Aint * displacements,
 int Type_contiguous(int count, Datatype oldtype, Datatype *newtype)
 {
     int i;
-    int blocklengths[count];
-    Datatype oldtypes[count];
-    MPI_Aint offsets[count];
+    int ret;
+    int *blocklengths = mpi_malloc(count * sizeof(int));
+    Datatype *oldtypes = mpi_malloc(count * sizeof(Datatype));
+    MPI_Aint *offsets = mpi_malloc(count * sizeof(MPI_Aint));
     MPI_Aint extent;
 
     //each copy is strided by the extent of the datatype.
@@ -457,7 +461,11 @@ int Type_contiguous(int count, Datatype oldtype, Datatype *newtype)
         offsets[i] = extent * i;
         oldtypes[i] = oldtype;
     }
-    return Type_struct(count, blocklengths, offsets, oldtypes, newtype);
+    ret = Type_struct(count, blocklengths, offsets, oldtypes, newtype);
+    mpi_free(blocklengths);
+    mpi_free(oldtypes);
+    mpi_free(offsets);
+    return ret;
 }
 
 int FC_FUNC( mpi_type_contiguous, MPI_TYPE_CONTIGUOUS )
@@ -483,9 +491,10 @@ int Type_hvector(int count, int blocklen, MPI_Aint stride,
                  Datatype oldtype, Datatype *newtype)
 {
     int i;
-    int blocklengths[count];
-    Datatype oldtypes[count];
-    MPI_Aint offsets[count];
+    int ret;
+    int *blocklengths = mpi_malloc(count * sizeof(int));
+    Datatype *oldtypes = mpi_malloc(count * sizeof(Datatype));
+    MPI_Aint *offsets = mpi_malloc(count * sizeof(MPI_Aint));
     MPI_Aint extent;
 
     Type_extent(oldtype, &extent);
@@ -496,7 +505,11 @@ int Type_hvector(int count, int blocklen, MPI_Aint stride,
         oldtypes[i] = oldtype;
     }
 
-    return Type_struct(count, blocklengths, offsets, oldtypes, newtype);
+    ret = Type_struct(count, blocklengths, offsets, oldtypes, newtype);
+    mpi_free(blocklengths);
+    mpi_free(oldtypes);
+    mpi_free(offsets);
+    return ret;
 }
 
 int FC_FUNC( mpi_type_hvector, MPI_TYPE_HVECTOR )
@@ -579,14 +592,17 @@ int Type_hindexed(int count, int *blocklens, MPI_Aint *displacements,
                   Datatype oldtype, Datatype *newtype)
 {
     int i;
-    Datatype oldtypes[count];
+    int ret;
+    Datatype *oldtypes = mpi_malloc(count * sizeof(Datatype));
 
     for (i = 0; i < count; i++)
     {
         oldtypes[i] = oldtype;
     }
 
-    return Type_struct(count, blocklens, displacements, oldtypes, newtype);
+    ret = Type_struct(count, blocklens, displacements, oldtypes, newtype);
+    mpi_free(oldtypes);
+    return ret;
 }
 
 int FC_FUNC( mpi_type_hindexed, MPI_TYPE_HINDEXED )
@@ -615,8 +631,9 @@ int Type_indexed(int count, int *blocklens, int *displacements,
                  Datatype oldtype, Datatype *newtype)
 {
     int i;
+    int ret;
     MPI_Aint extent;
-    MPI_Aint bdisps[count];
+    MPI_Aint *bdisps = mpi_malloc(count * sizeof(MPI_Aint));
 
     for (i = 0; i < count; i++)
     {
@@ -624,7 +641,9 @@ int Type_indexed(int count, int *blocklens, int *displacements,
         bdisps[i] = displacements[i] * extent;
     }
 
-    return Type_hindexed(count, blocklens, bdisps, oldtype, newtype);
+    ret = Type_hindexed(count, blocklens, bdisps, oldtype, newtype);
+    mpi_free(bdisps);
+    return ret;
 }
 
 int FC_FUNC( mpi_type_indexed, MPI_TYPE_INDEXED )
@@ -652,12 +671,15 @@ int Type_create_indexed_block(int count, int blocklen, int *displacements,
 			      Datatype oldtype, Datatype *newtype)
 {
     int i;
-    int blocklens[count];
+    int ret;
+    int *blocklens = mpi_malloc(count * sizeof(int));
 
     for (i = 0; i < count; i++)
         blocklens[i] = blocklen;
 
-    return Type_indexed(count, blocklens, displacements, oldtype, newtype);
+    ret = Type_indexed(count, blocklens, displacements, oldtype, newtype);
+    mpi_free(blocklens);
+    return ret;
 }
 
 int FC_FUNC( mpi_type_create_indexed_block, MPI_TYPE_CREATE_INDEXED_BLOCK )
-- 
2.43.0


From f1f2b85157476eb63f3e80738b62f0c06f92484d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:06 +0000
Subject: [PATCH 20/36] fix: probe.c compiles with INFO defined

The message named variables that MPI_Iprobe does not have.
---
 probe.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/probe.c b/probe.c
index d1b6259..05c5147 100644
--- a/probe.c
+++ b/probe.c
@@ -31,8 +31,8 @@ int MPI_Iprobe(int source, int tag, MPI_Comm comm, int *flag,
 
 #ifdef INFO
   fflush(stdout);
-  fprintf(stderr,"MPI_IProbev: Comm=%d  tag=%d  count=%d type=%d\n",
-         mycomm->num,tag,count,datatype);
+  fprintf(stderr,"MPI_Iprobe: Comm=%d  tag=%d\n",
+         mycomm->num,tag);
 #endif
 
 
-- 
2.43.0


From 1baaac300b254cd0b31d3f0c91ff8c3fd57e77dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:14 +0000
Subject: [PATCH 21/36] fix: a datatype freed while operations are pending
 stays usable for them

MPI_Type_free released the type map at once, and the later match read
freed memory.
---
 copy.c  | 10 ----------
 mpiP.h  |  2 +-
 probe.c |  3 +--
 recv.c  | 12 ++++++++----
 send.c  | 10 +++++++---
 type.c  | 24 +++++++++++++++++++++++-
 type.h  |  6 ++++++
 7 files changed, 46 insertions(+), 21 deletions(-)

diff --git a/copy.c b/copy.c
index f898aab..b5d5318 100644
--- a/copy.c
+++ b/copy.c
@@ -17,16 +17,6 @@
 #include <config.h>
 #endif
 
-/*
- * rml: this prototype should be in mpiP.h, but mpiP.h does not currently
- * include type.h so it can't just be added right now.  Come back and
- * fix this issue later...
- */
-
-extern int Pcopy_data2(void *source, int src_count, Datatype src_type,
-		       void *dest, int dest_count, Datatype dest_type);
-
-
 int copy_data2(void *source, int src_count, MPI_Datatype src_type,
                void *dest, int dest_count, MPI_Datatype dest_type)
 {
diff --git a/mpiP.h b/mpiP.h
index 0c0874f..5f8df09 100644
--- a/mpiP.h
+++ b/mpiP.h
@@ -102,7 +102,7 @@ typedef struct
   int freed;                 /* MPI_Request_free'd before completion */
   int count;
   int elements;              /* basic elements delivered by the match */
-  MPI_Datatype type;  /* needed for test_simple_bindexed2 */
+  void *type;                /* Datatype, held while the request is pending */
 } Req;
 
 
diff --git a/probe.c b/probe.c
index 05c5147..99edec2 100644
--- a/probe.c
+++ b/probe.c
@@ -54,8 +54,7 @@ int MPI_Iprobe(int source, int tag, MPI_Comm comm, int *flag,
 	{
 	  status->MPI_SOURCE=0  ;
 	  status->MPI_TAG= sreq->tag;
-	  status->get_count= sreq->count *
-	    (*(Datatype*) mpi_handle_to_datatype(sreq->type))->count;
+	  status->get_count= sreq->count * ((Datatype) sreq->type)->count;
 	}
     }
 
diff --git a/recv.c b/recv.c
index c92bc46..758f8b7 100644
--- a/recv.c
+++ b/recv.c
@@ -1,5 +1,6 @@
 
 #include "mpiP.h"
+#include "type.h"
 
 
 
@@ -60,8 +61,6 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
     }
 
   mpi_alloc_handle(request,(void **)&rreq);
-  rreq->type = datatype;
-  rreq->count = count;
   rreq->handle=*request;
   rreq->freed=0;
   rreq->elements = 0;
@@ -81,8 +80,10 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
       AP_list_delete_item(mycomm->sendlist,match);
 
 //      memcpy(buf,sreq->buf,count * datatype);
-      rreq->elements=copy_data2(sreq->buf, sreq->count, sreq->type,
-                                buf, count, datatype);
+      rreq->elements=Pcopy_data2(sreq->buf, sreq->count, sreq->type,
+                                 buf, count,
+                                 *(Datatype*) mpi_handle_to_datatype(datatype));
+      Type_release(sreq->type);
       rreq->complete=1;
       rreq->source=0;
       rreq->tag=sreq->tag;                   /* in case tag was MPI_ANY_TAG */
@@ -98,6 +99,9 @@ int MPI_Irecv(void *buf, int count, MPI_Datatype datatype,
     }
 
   rreq->buf=buf;
+  rreq->count=count;
+  rreq->type=*(Datatype*) mpi_handle_to_datatype(datatype);
+  Type_hold(rreq->type);
   rreq->tag=tag;
   rreq->complete=0;
   rreq->listitem=AP_list_append(mycomm->recvlist,rreq);
diff --git a/send.c b/send.c
index 973d408..c4a7bf9 100644
--- a/send.c
+++ b/send.c
@@ -1,4 +1,5 @@
 #include "mpiP.h"
+#include "type.h"
 
 
 /*
@@ -69,8 +70,10 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
       rreq=(Req *)AP_listitem_data(match);
       AP_list_delete_item(mycomm->recvlist,match);
 
-      rreq->elements=copy_data2(buf, count, datatype,
-                                rreq->buf, rreq->count, rreq->type);
+      rreq->elements=Pcopy_data2(buf, count,
+                                 *(Datatype*) mpi_handle_to_datatype(datatype),
+                                 rreq->buf, rreq->count, rreq->type);
+      Type_release(rreq->type);
       rreq->source=0;
       rreq->tag=tag;                    /* in case rreq->tag was MPI_ANY_TAG */
       mpi_req_complete(rreq);
@@ -87,7 +90,8 @@ int MPI_Isend(void *buf, int count, MPI_Datatype datatype,
 
   sreq->buf=buf;
   sreq->count=count;
-  sreq->type=datatype;
+  sreq->type=*(Datatype*) mpi_handle_to_datatype(datatype);
+  Type_hold(sreq->type);
   sreq->tag=tag;
   sreq->complete=0;
   sreq->listitem=AP_list_append(mycomm->sendlist,sreq);
diff --git a/type.c b/type.c
index 2ffaaef..fb10c5f 100644
--- a/type.c
+++ b/type.c
@@ -327,6 +327,8 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
   temp->count = simpletype_count;
   temp->o_lb = 0;
   temp->o_ub = 0;
+  temp->pending = 0;
+  temp->freed = 0;
 
   i = 0;         //old type's index
   newcount = 0;  //new type's index
@@ -715,6 +717,8 @@ int Type_dup(Datatype oldtype, Datatype *newtype)
   (*newtype)->ub = oldtype->ub;
   (*newtype)->o_lb = oldtype->o_lb;
   (*newtype)->o_ub = oldtype->o_ub;
+  (*newtype)->pending = 0;
+  (*newtype)->freed = 0;
 
   for (i = 0; i < oldtype->count; i++)
   {
@@ -861,6 +865,20 @@ int MPI_Type_commit(MPI_Datatype * datatype)
 }
 
 /**********************/
+/* A type that is freed while pending operations use it is kept
+ * until the last of them is matched.
+ */
+void Type_hold(Datatype type)
+{
+  type->pending++;
+}
+
+void Type_release(Datatype type)
+{
+  if (--type->pending == 0 && type->freed)
+    free(type);
+}
+
 int FC_FUNC( mpi_type_free, MPI_TYPE_FREE )(int * datatype, int * ierr)
 {
   *ierr = MPI_Type_free(datatype);
@@ -870,7 +888,11 @@ int FC_FUNC( mpi_type_free, MPI_TYPE_FREE )(int * datatype, int * ierr)
 int MPI_Type_free(MPI_Datatype * datatype)
 {
   Datatype type_ptr = *(Datatype*) mpi_handle_to_datatype(*datatype);
-  free(type_ptr);
+
+  if (type_ptr->pending)
+    type_ptr->freed = 1;
+  else
+    free(type_ptr);
 
   mpi_free_handle(*datatype);
   *datatype = MPI_DATATYPE_NULL;
diff --git a/type.h b/type.h
index 069b9a2..4132445 100644
--- a/type.h
+++ b/type.h
@@ -28,6 +28,8 @@ typedef struct
   int committed; //type has been committed
   int o_lb; //overridden lower/upper bound
   int o_ub; // "
+  int pending; //number of pending operations using the type
+  int freed; //the user has freed the type
   /* pairs[] is size 2 because of predefined types
    * such as MPI_2INT that have 2 typemap entries
    * upon initialization.
@@ -83,6 +85,10 @@ typedef Typestruct* Datatype;
 #define SIMPLE_WCHAR       36
 
 //internal type functions
+void Type_hold(Datatype type);
+void Type_release(Datatype type);
+int Pcopy_data2(void *source, int src_count, Datatype src_type,
+                void *dest, int dest_count, Datatype dest_type);
 int Simpletype_length(Simpletype s);
 int Type_extent(Datatype datatype, MPI_Aint * extent);
 
-- 
2.43.0


From 383298323b6b43cbce1bfa350366a406576186c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:22 +0000
Subject: [PATCH 22/36] fix: probing MPI_PROC_NULL succeeds

MPI_Iprobe ended the program although the receive it predicts would
complete at once.
---
 probe.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/probe.c b/probe.c
index 99edec2..14a1eea 100644
--- a/probe.c
+++ b/probe.c
@@ -36,6 +36,20 @@ int MPI_Iprobe(int source, int tag, MPI_Comm comm, int *flag,
 #endif
 
 
+  if (source==MPI_PROC_NULL)
+    {
+      *flag=1;
+
+      if (status!=MPI_STATUS_IGNORE)
+	{
+	  status->MPI_SOURCE= MPI_PROC_NULL;
+	  status->MPI_TAG= MPI_ANY_TAG;
+	  status->get_count= 0;
+	}
+
+      return(MPI_SUCCESS);
+    }
+
   if (source!=0 && source!=MPI_ANY_SOURCE)
     {
       fprintf(stderr,"MPI_Irecv: bad source %d\n",source);
-- 
2.43.0


From aaf36b825d22fa866b401c67c40fc4290c734942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:56 +0000
Subject: [PATCH 23/36] fix: the messages of the cart functions' errors are not
 lost

printf before abort() leaves the message in stdout's buffer, which is
discarded unless stdout is a terminal.  Use stderr, as the other checks do.
---
 cart.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cart.c b/cart.c
index ee8ea0b..37a91d2 100644
--- a/cart.c
+++ b/cart.c
@@ -24,7 +24,7 @@ int MPI_Cart_create( MPI_Comm comm_old, int ndims, int *dims, int *periods,
   for (i = 0; i < ndims; i++)
     if (dims[i] > 1)
     {
-      printf("MPI_Cart_create: Greater dimension than no. of procs\n");
+      fprintf(stderr,"MPI_Cart_create: Greater dimension than no. of procs\n");
       abort();
     }
 
@@ -90,7 +90,7 @@ int MPI_Cart_coords(MPI_Comm comm, int rank, int maxdims, int *coords)
 
   if (rank != 0)
   {
-    printf("MPI_Cart_coords: Rank != 0\n");
+    fprintf(stderr,"MPI_Cart_coords: Rank != 0\n");
     abort();
   }
 
@@ -122,7 +122,7 @@ int MPI_Dims_create(int nnodes, int ndims, int *dims)
 
   if (nnodes > 1)
   {
-    printf("MPI_Dims_create: More nodes than procs specified.\n");
+    fprintf(stderr,"MPI_Dims_create: More nodes than procs specified.\n");
     abort();
   }
 
-- 
2.43.0


From 114230051790ec6056542e87396f158647320a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:11 +0000
Subject: [PATCH 24/36] fix: MPI_Get_version has its standard name and is
 declared

---
 mpi.c | 4 ++--
 mpi.h | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpi.c b/mpi.c
index 08417cf..cc49887 100644
--- a/mpi.c
+++ b/mpi.c
@@ -333,7 +333,7 @@ void FC_FUNC( mpi_get_library_version, MPI_GET_LIBRARY_VERSION) (char *version,
 
 
 
-int MPI_Get_Version(int *mpi_vers, int *mpi_subvers)
+int MPI_Get_version(int *mpi_vers, int *mpi_subvers)
 {
     *mpi_vers = 1;
     *mpi_subvers = 0;
@@ -344,7 +344,7 @@ int MPI_Get_Version(int *mpi_vers, int *mpi_subvers)
 /**********/
 void FC_FUNC( mpi_get_version, MPI_GET_VERSION )(int *mpi_vers, int *mpi_subvers, int *ierror)
 {
-  MPI_Get_Version(mpi_vers, mpi_subvers);
+  MPI_Get_version(mpi_vers, mpi_subvers);
 
   *ierror=MPI_SUCCESS;
 
diff --git a/mpi.h b/mpi.h
index a765586..3116f0b 100644
--- a/mpi.h
+++ b/mpi.h
@@ -253,6 +253,7 @@ typedef int MPI_Info;         /* handle */
  *
  */
 extern int MPI_Get_library_version(char *version, int *resultlen);
+extern int MPI_Get_version(int *mpi_vers, int *mpi_subvers);
 
 extern int MPI_Intercomm_create(MPI_Comm local_comm, int local_leader,
                           MPI_Comm peer_comm, int remote_leader,
-- 
2.43.0


From 198513ffd1876d49a0c20479c31b5431ece8cd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:11 +0000
Subject: [PATCH 25/36] fix: mpi.h declares every function it has

---
 mpi.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpi.h b/mpi.h
index 3116f0b..4b10837 100644
--- a/mpi.h
+++ b/mpi.h
@@ -342,6 +342,7 @@ extern MPI_Group MPI_Group_f2c(MPI_Fint group);
 extern MPI_Fint MPI_Group_c2f(MPI_Group group);
 
 extern int MPI_Init(int *argc, char **argv[]) ;
+extern int MPI_Init_thread(int *argc, char **argv[], int required, int *provided);
 extern int MPI_Finalize(void);
 extern int MPI_Abort(MPI_Comm comm, int errorcode);
 extern int MPI_Error_string(int errorcode, char *string, int *resultlen);
@@ -349,6 +350,7 @@ extern int MPI_Get_processor_name(char *name, int *resultlen);
 
 extern int MPI_Info_create(MPI_Info *info);
 extern int MPI_Info_set(MPI_Info info, char *key, char *value);
+extern int MPI_Info_free(MPI_Info *info);
 
 extern int MPI_Initialized(int *flag);
 extern int MPI_Pack( void *inbuf, int incount, MPI_Datatype datatype,
@@ -432,6 +434,8 @@ extern int MPI_Type_struct(int count, int *blocklens, MPI_Aint *displacements,
 extern int MPI_Type_dup(MPI_Datatype oldtype, MPI_Datatype *newtype);
 
 extern int MPI_Type_extent(MPI_Datatype datatype, MPI_Aint * extent);
+extern int MPI_Get_address(void * loc, MPI_Aint * address);
+extern int MPI_Address(void * loc, MPI_Aint * address);
 extern int MPI_Type_commit(MPI_Datatype * datatype);
 extern int MPI_Type_free(MPI_Datatype * datatype);
 extern int MPI_Type_lb(MPI_Datatype datatype, MPI_Aint * lb);
-- 
2.43.0


From 321271ca9672671f88371890ba2dc23b4e2e0210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:50 +0000
Subject: [PATCH 26/36] fix: an empty block of MPI_LB or MPI_UB sets no bound

---
 type.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/type.c b/type.c
index fb10c5f..cdb6d65 100644
--- a/type.c
+++ b/type.c
@@ -286,6 +286,10 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
   // find the total number of elements in the typemap we need to add.
   for (i = 0; i < count; i++)
   {
+    //an empty block contributes nothing, a bound neither
+    if (blocklens[i] <= 0)
+      continue;
+
     //check for MPI_UB or MPI_LB.  These types are special
     // cases and will be skipped over
 
-- 
2.43.0


From dbe76a416704c8f467d27ca13f077ea25a2479ae Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 20:11:06 +0000
Subject: [PATCH 27/36] fix: a transfer may have more elements on one side than
 an int holds

The number of elements of a send or receive was computed as an int: for a
receive of 2**30 items of MPI_2INT it overflowed, and the receive took nothing
(or too little) of the message.
---
 copy.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/copy.c b/copy.c
index b5d5318..dc422c8 100644
--- a/copy.c
+++ b/copy.c
@@ -32,8 +32,8 @@ int copy_data2(void *source, int src_count, MPI_Datatype src_type,
 int Pcopy_data2(void *source, int src_count, Datatype src_type,
                 void *dest, int dest_count, Datatype dest_type)
 {
-  int i;
-  int elements;
+  MPI_Aint i;
+  MPI_Aint elements;
   MPI_Aint soffset, doffset;
   MPI_Aint src_extent, dest_extent;
 
@@ -49,9 +49,9 @@ int Pcopy_data2(void *source, int src_count, Datatype src_type,
   // The receiver may ask for less or for more elements than were sent:
   // transfer those that are on both sides
 
-  elements = src_type->count * src_count;
-  if (elements > dest_type->count * dest_count)
-    elements = dest_type->count * dest_count;
+  elements = (MPI_Aint) src_type->count * src_count;
+  if (elements > (MPI_Aint) dest_type->count * dest_count)
+    elements = (MPI_Aint) dest_type->count * dest_count;
 
   Type_extent(src_type, &src_extent);
   Type_extent(dest_type, &dest_extent);
-- 
2.43.0


From d119cb05ebf7def08d58ccd4329ecae7c01d01c7 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 20:11:06 +0000
Subject: [PATCH 28/36] fix: packing at the end of a buffer of 2 GiB is refused

The sum of position and element size overflowed near 2**31, so that the check
for the end of the buffer passed and data was read or written beyond it.
---
 pack.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pack.c b/pack.c
index 25c134e..9ebb1b2 100644
--- a/pack.c
+++ b/pack.c
@@ -46,7 +46,7 @@ int Pack(void *inbuf, int incount, Datatype type,
   {
     for (j = 0; j < type->count; j++)
     {
-      if ((*position) + Simpletype_length(type->pairs[j].type) > outsize)
+      if (Simpletype_length(type->pairs[j].type) > outsize - (*position))
       {
         printf("MPI_Pack: data exceeds buffer size\n");
         exit(1);
@@ -137,7 +137,7 @@ int Unpack(void * inbuf, int insize, int * position, void *outbuf,
   {
     for (j = 0; j < type->count; j++)
     {
-      if ((*position) + Simpletype_length(type->pairs[j].type) > insize)
+      if (Simpletype_length(type->pairs[j].type) > insize - (*position))
       {
         printf("MPI_Unpack: Data exceeds buffer size\n");
 	exit(1);
-- 
2.43.0


From 048f5d8b20378cb120e7781c703911e9b857af77 Mon Sep 17 00:00:00 2001
From: vp <vp@localhost>
Date: Thu, 19 Nov 2026 20:11:06 +0000
Subject: [PATCH 29/36] fix: MPI_Cart_get reports the periods

The periods array was left as it was.  The periods given to MPI_Cart_create are
now kept with the communicator, and with its duplicates.
---
 cart.c |  4 ++++
 comm.c | 29 +++++++++++++++++++++++++++++
 mpiP.h |  4 ++++
 3 files changed, 37 insertions(+)

diff --git a/cart.c b/cart.c
index 37a91d2..fd9a8a3 100644
--- a/cart.c
+++ b/cart.c
@@ -29,6 +29,7 @@ int MPI_Cart_create( MPI_Comm comm_old, int ndims, int *dims, int *periods,
     }
 
   MPI_Comm_dup(comm_old, comm_cart);
+  mpi_comm_cart(*comm_cart, ndims, periods);
 
   return MPI_SUCCESS;
 }
@@ -58,9 +59,12 @@ int MPI_Cart_get(MPI_Comm comm, int maxdims, int *dims,
                  int *periods, int *coords)
 {
   int i;
+  Comm *mycomm=mpi_handle_to_ptr(comm);
+
   for (i=0;i<maxdims;i++)
   {
     dims[i]=1;
+    periods[i]= i<mycomm->ndims ? mycomm->periods[i] : 0;
     coords[i]=0;
   }
   return(MPI_SUCCESS);
diff --git a/comm.c b/comm.c
index c9c1ecb..2ff2a93 100644
--- a/comm.c
+++ b/comm.c
@@ -23,10 +23,31 @@ MPI_Comm mpi_comm_new(void)
 
   cptr->num=num++;
 
+  cptr->ndims=0;
+  cptr->periods=NULL;
+
   return(chandle);
 }
 
 
+/* set the cartesian topology of a new communicator */
+
+void mpi_comm_cart(MPI_Comm comm, int ndims, int *periods)
+{
+  Comm *cptr;
+  int i;
+
+  cptr=mpi_handle_to_ptr(comm);
+
+  mpi_free(cptr->periods);
+
+  cptr->ndims=ndims;
+  cptr->periods=mpi_malloc(ndims*sizeof(int));
+  for (i=0; i<ndims; i++)
+    cptr->periods[i]=periods[i];
+}
+
+
 /*********/
 
 
@@ -71,6 +92,8 @@ int MPI_Comm_free(MPI_Comm *comm)
 	    size);
   AP_list_free(recvlist);
 
+  mpi_free(mycomm->periods);
+
   mpi_free_handle(*comm);            /* free(mycomm); */
   *comm=MPI_COMM_NULL;
 
@@ -131,8 +154,14 @@ int FC_FUNC( mpi_comm_dup , MPI_COMM_DUP )(int *comm, int *newcomm, int *ierror)
 
 int MPI_Comm_dup(MPI_Comm comm, MPI_Comm *newcomm)
 {
+  Comm *old;
+
   *newcomm= mpi_comm_new();
 
+  old=mpi_handle_to_ptr(comm);
+  if (old && old->ndims>0)
+    mpi_comm_cart(*newcomm,old->ndims,old->periods);
+
 #ifdef INFO
   fflush(stdout);
   fprintf(stderr,"MPI_Comm_dup: new comm handle=%d\n",*newcomm);
diff --git a/mpiP.h b/mpiP.h
index 5f8df09..b3bf13f 100644
--- a/mpiP.h
+++ b/mpiP.h
@@ -86,6 +86,9 @@ typedef struct
 
   int num;
 
+  int ndims;                 /* of a cartesian communicator, else 0 */
+  int *periods;
+
 } Comm;
 
 
@@ -116,6 +119,7 @@ extern void *mpi_malloc(size_t size);
 extern void mpi_free(void *ptr);
 
 extern MPI_Comm mpi_comm_new(void);
+extern void mpi_comm_cart(MPI_Comm comm, int ndims, int *periods);
 
 extern void mpi_destroy_handles(void);
 extern void mpi_alloc_handle(int *handle, void **data);
-- 
2.43.0


From d1c429853cc7e86bdec3afd55816007f56190ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:31 +0000
Subject: [PATCH 30/36] fix: the items of a duplicated list know their list

With CHECKS defined, AP_list_delete_item aborts unless the item says that it
is in the list.  AP_list_duplicate did not set that.
---
 list.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/list.c b/list.c
index 6f4eee2..077b9b3 100644
--- a/list.c
+++ b/list.c
@@ -540,6 +540,10 @@ pList AP_list_duplicate(pList list)
       new->data=cur->data;
       new->prev=prev;
 
+#ifdef CHECKS
+      new->list=newlist;
+#endif
+
       if (prev)
 	prev->next=new;
       else
-- 
2.43.0


From 9ad1a7f19e10fffd4a7912520d29c486d11e90f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 31/36] fix: running out of memory for a datatype stops the
 program

---
 type.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/type.c b/type.c
index cdb6d65..924b287 100644
--- a/type.c
+++ b/type.c
@@ -325,8 +325,8 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
       simpletype_count += blocklens[i] * oldtypes_ptr[i]->count;
     }
   }
-  temp = malloc(sizeof(Typestruct) +
-               ((simpletype_count-1) * sizeof(typepair)));
+  temp = mpi_malloc(sizeof(Typestruct) +
+                    ((simpletype_count-1) * sizeof(typepair)));
 
   temp->count = simpletype_count;
   temp->o_lb = 0;
@@ -713,8 +713,8 @@ int Type_dup(Datatype oldtype, Datatype *newtype)
 {
   int i;
   //create a deep copy of given Datatype
-  *newtype = malloc(sizeof(Typestruct) +
-                    ((oldtype->count-1) * sizeof(typepair)));
+  *newtype = mpi_malloc(sizeof(Typestruct) +
+                        ((oldtype->count-1) * sizeof(typepair)));
   (*newtype)->count = oldtype->count;
   (*newtype)->committed = oldtype->committed;
   (*newtype)->lb = oldtype->lb;
-- 
2.43.0


From e39d60de469e4915e2418bba147c6bfb02b676d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 32/36] fix: a datatype of more elements than it can count is
 refused

---
 type.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/type.c b/type.c
index 924b287..f67f683 100644
--- a/type.c
+++ b/type.c
@@ -279,7 +279,7 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
        override_upper = 0;
   MPI_Aint  new_lb = LONG_MAX,
       new_ub = LONG_MIN;
-  int simpletype_count = 0; //total additional blocks for malloc
+  MPI_Aint simpletype_count = 0; //total additional blocks for malloc
   MPI_Aint tmp_offset;      //for contiguous blocks of type
   MPI_Aint extent;
 
@@ -322,7 +322,13 @@ int Type_struct(int count, int * blocklens, MPI_Aint * displacements,
         //same as above, but ub
         override_upper = 1;
 
-      simpletype_count += blocklens[i] * oldtypes_ptr[i]->count;
+      simpletype_count += (MPI_Aint) blocklens[i] * oldtypes_ptr[i]->count;
+
+      if (simpletype_count > INT_MAX)
+      {
+        fprintf(stderr, "Type_struct: too many elements in a datatype\n");
+        abort();
+      }
     }
   }
   temp = mpi_malloc(sizeof(Typestruct) +
-- 
2.43.0


From f48c734f8928186b1fab6a8346c41454f84878cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:43 +0000
Subject: [PATCH 33/36] fix: a status says so when it cannot count the elements
 of a message

The element count of a message of more than INT_MAX basic elements was
cut to 32 bits, so that a probe of 2**30 items of 4 bytes announced an
empty message.  MPI_Get_count and MPI_Get_elements now give
MPI_UNDEFINED for it.
---
 copy.c     |  8 ++++----
 getcount.c | 17 +++++++++++++++++
 mpiP.h     |  7 ++++---
 probe.c    |  3 ++-
 req.c      |  2 +-
 type.h     |  4 ++--
 6 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/copy.c b/copy.c
index dc422c8..6e5d30f 100644
--- a/copy.c
+++ b/copy.c
@@ -17,8 +17,8 @@
 #include <config.h>
 #endif
 
-int copy_data2(void *source, int src_count, MPI_Datatype src_type,
-               void *dest, int dest_count, MPI_Datatype dest_type)
+MPI_Aint copy_data2(void *source, int src_count, MPI_Datatype src_type,
+                    void *dest, int dest_count, MPI_Datatype dest_type)
 {
   Datatype src_ptr = *(Datatype*) mpi_handle_to_datatype(src_type);
   Datatype dest_ptr = *(Datatype*) mpi_handle_to_datatype(dest_type);
@@ -29,8 +29,8 @@ int copy_data2(void *source, int src_count, MPI_Datatype src_type,
 
 
 
-int Pcopy_data2(void *source, int src_count, Datatype src_type,
-                void *dest, int dest_count, Datatype dest_type)
+MPI_Aint Pcopy_data2(void *source, int src_count, Datatype src_type,
+                     void *dest, int dest_count, Datatype dest_type)
 {
   MPI_Aint i;
   MPI_Aint elements;
diff --git a/getcount.c b/getcount.c
index 12de57f..3da37ac 100644
--- a/getcount.c
+++ b/getcount.c
@@ -6,6 +6,21 @@
 
 #include "type.h"
 #include "mpiP.h"
+#include <limits.h>
+
+
+/*
+ * the number of basic elements as a status holds it:
+ * MPI_UNDEFINED if there are more than an int can count
+ */
+
+int mpi_status_count(MPI_Aint elements)
+{
+  return(elements > INT_MAX ? MPI_UNDEFINED : (int) elements);
+}
+
+
+/********/
 
 
 int FC_FUNC( mpi_get_count , MPI_GET_COUNT )
@@ -24,6 +39,8 @@ int MPI_Get_count(MPI_Status *status, MPI_Datatype datatype, int *count)
 
   if (status->get_count == 0)
     *count = 0;
+  else if (status->get_count == MPI_UNDEFINED)
+    *count = MPI_UNDEFINED;
   else if (dt_ptr->count == 0 || status->get_count % dt_ptr->count != 0)
     *count = MPI_UNDEFINED;
   else
diff --git a/mpiP.h b/mpiP.h
index b3bf13f..6ffd395 100644
--- a/mpiP.h
+++ b/mpiP.h
@@ -104,7 +104,7 @@ typedef struct
   int handle;                /* of this request */
   int freed;                 /* MPI_Request_free'd before completion */
   int count;
-  int elements;              /* basic elements delivered by the match */
+  MPI_Aint elements;         /* basic elements delivered by the match */
   void *type;                /* Datatype, held while the request is pending */
 } Req;
 
@@ -112,8 +112,8 @@ typedef struct
 /****************************************************************************/
 
 /* copy functions (return the number of basic elements copied) */
-extern int copy_data2(void * source, int src_count, MPI_Datatype src_type,
-                      void * dest, int dest_count, MPI_Datatype dest_type);
+extern MPI_Aint copy_data2(void * source, int src_count, MPI_Datatype src_type,
+                           void * dest, int dest_count, MPI_Datatype dest_type);
 
 extern void *mpi_malloc(size_t size);
 extern void mpi_free(void *ptr);
@@ -126,6 +126,7 @@ extern void mpi_alloc_handle(int *handle, void **data);
 extern void *mpi_handle_to_ptr(int handle);
 extern void mpi_free_handle(int handle);
 extern void mpi_req_complete(Req *req);
+extern int mpi_status_count(MPI_Aint elements);
 
 extern void FC_FUNC(mpi_get_fort_pointers,MPI_GET_FORT_POINTERS)(void);
 
diff --git a/probe.c b/probe.c
index 14a1eea..c116c5c 100644
--- a/probe.c
+++ b/probe.c
@@ -68,7 +68,8 @@ int MPI_Iprobe(int source, int tag, MPI_Comm comm, int *flag,
 	{
 	  status->MPI_SOURCE=0  ;
 	  status->MPI_TAG= sreq->tag;
-	  status->get_count= sreq->count * ((Datatype) sreq->type)->count;
+	  status->get_count= mpi_status_count((MPI_Aint) sreq->count *
+					      ((Datatype) sreq->type)->count);
 	}
     }
 
diff --git a/req.c b/req.c
index 1595110..1a20513 100644
--- a/req.c
+++ b/req.c
@@ -43,7 +43,7 @@ int MPI_Test(MPI_Request *request, int *flag, MPI_Status *status)
 	{
 	  status->MPI_SOURCE= req->source;
 	  status->MPI_TAG= req->tag;
-	  status->get_count= req->elements;
+	  status->get_count= mpi_status_count(req->elements);
 	}
 
       mpi_free_handle(*request);
diff --git a/type.h b/type.h
index 4132445..fa63385 100644
--- a/type.h
+++ b/type.h
@@ -87,8 +87,8 @@ typedef Typestruct* Datatype;
 //internal type functions
 void Type_hold(Datatype type);
 void Type_release(Datatype type);
-int Pcopy_data2(void *source, int src_count, Datatype src_type,
-                void *dest, int dest_count, Datatype dest_type);
+MPI_Aint Pcopy_data2(void *source, int src_count, Datatype src_type,
+                     void *dest, int dest_count, Datatype dest_type);
 int Simpletype_length(Simpletype s);
 int Type_extent(Datatype datatype, MPI_Aint * extent);
 
-- 
2.43.0


From 8eb07d8993d6c1df7e0a2fabcfe80026f95c0d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:41 +0000
Subject: [PATCH 34/36] fix: a size that an int cannot hold is MPI_UNDEFINED

MPI_Type_size of a datatype of more than INT_MAX bytes and, from
Fortran, MPI_PACK_SIZE of as much gave the low 32 bits.
---
 pack.c | 3 ++-
 type.c | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pack.c b/pack.c
index 9ebb1b2..98955f3 100644
--- a/pack.c
+++ b/pack.c
@@ -1,6 +1,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <limits.h>
 #include "mpiP.h"
 #include "type.h"
 
@@ -79,7 +80,7 @@ int FC_FUNC( mpi_pack_size, MPI_PACK_SIZE )(int * incount, int * datatype,
   MPI_Aint lsize;
 
   *ierr = MPI_Pack_size(*incount, *datatype, *comm, &lsize);
-  *size = lsize;
+  *size = (lsize > INT_MAX ? MPI_UNDEFINED : (int) lsize);
   return MPI_SUCCESS;
 }
 
diff --git a/type.c b/type.c
index f67f683..0ecb35c 100644
--- a/type.c
+++ b/type.c
@@ -760,10 +760,12 @@ int MPI_Type_dup(MPI_Datatype oldtype, MPI_Datatype * newtype)
 int Type_size(Datatype type, int * size)
 {
     int i;
-    *size = 0;
+    MPI_Aint total = 0;
     for (i=0; i < type->count; i++)
-        *size += Simpletype_length(type->pairs[i].type);
+        total += Simpletype_length(type->pairs[i].type);
 
+    //more bytes than an int can count
+    *size = (total > INT_MAX ? MPI_UNDEFINED : (int) total);
 
     return MPI_SUCCESS;
 }
-- 
2.43.0


From 198f4b7a3be68a3c110edc8590fb379b0ae61d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:30 +0000
Subject: [PATCH 35/36] fix: a root that does not exist is refused in place too

---
 collective.c | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/collective.c b/collective.c
index 2bae3f9..f53fe5a 100644
--- a/collective.c
+++ b/collective.c
@@ -69,9 +69,6 @@ int MPI_Gather(void* sendbuf, int sendcount, MPI_Datatype sendtype,
 	       void* recvbuf, int recvcount, MPI_Datatype recvtype,
 	       int root, MPI_Comm comm)
 {
-  if (sendbuf==MPI_IN_PLACE)
-    return(MPI_SUCCESS);
-
   if (root==MPI_ROOT)
     return(MPI_SUCCESS);
 
@@ -81,6 +78,9 @@ int MPI_Gather(void* sendbuf, int sendcount, MPI_Datatype sendtype,
       abort();
     }
 
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   copy_data2(sendbuf, sendcount, sendtype,
              recvbuf, recvcount, recvtype);
 //  memcpy(recvbuf,sendbuf,sendcount*sendtype);
@@ -111,9 +111,6 @@ int MPI_Gatherv(void* sendbuf, int sendcount, MPI_Datatype sendtype,
   MPI_Aint offset;
   MPI_Aint rt_extent;
 
-  if (sendbuf==MPI_IN_PLACE)
-    return(MPI_SUCCESS);
-
   if (root==MPI_ROOT)
     return(MPI_SUCCESS);
 
@@ -123,6 +120,9 @@ int MPI_Gatherv(void* sendbuf, int sendcount, MPI_Datatype sendtype,
       abort();
     }
 
+  if (sendbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   MPI_Type_extent(recvtype, &rt_extent);
   offset=displs[0]*rt_extent;
 
@@ -226,9 +226,6 @@ int MPI_Scatter(void * sendbuf, int sendcount, MPI_Datatype sendtype,
 		void * recvbuf, int recvcount, MPI_Datatype recvtype,
 		int root, MPI_Comm comm)
 {
-  if (recvbuf==MPI_IN_PLACE)
-    return(MPI_SUCCESS);
-
   if (root==MPI_ROOT)
     return(MPI_SUCCESS);
 
@@ -238,6 +235,9 @@ int MPI_Scatter(void * sendbuf, int sendcount, MPI_Datatype sendtype,
       abort();
     }
 
+  if (recvbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   copy_data2(sendbuf, sendcount, sendtype,
              recvbuf, recvcount, recvtype);
 
@@ -269,9 +269,6 @@ int MPI_Scatterv(void* sendbuf, int *sendcounts, int *displs,
   MPI_Aint offset;
   MPI_Aint st_extent;
 
-  if (recvbuf==MPI_IN_PLACE)
-    return(MPI_SUCCESS);
-
   if (root==MPI_ROOT)
     return(MPI_SUCCESS);
 
@@ -280,6 +277,10 @@ int MPI_Scatterv(void* sendbuf, int *sendcounts, int *displs,
       fprintf(stderr,"MPI_Scatterv: bad root = %d\n",root);
       abort();
     }
+
+  if (recvbuf==MPI_IN_PLACE)
+    return(MPI_SUCCESS);
+
   MPI_Type_extent(sendtype, &st_extent);
   offset=displs[0]*st_extent;
 
-- 
2.43.0


From 14f8c02079c7df9284e8914249f0a65406afa53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:54 +0000
Subject: [PATCH 36/36] fix: MPI_GET_ADDRESS has its own name where Fortran
 names are in capitals

---
 type.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/type.c b/type.c
index 0ecb35c..4897bc3 100644
--- a/type.c
+++ b/type.c
@@ -836,7 +836,7 @@ int FGet_address(void * loc, long * address)
     return MPI_SUCCESS;
 }
 
-int FC_FUNC( mpi_get_address, MPI_ADDRESS )(void * loc, long * address, int * ierr)
+int FC_FUNC( mpi_get_address, MPI_GET_ADDRESS )(void * loc, long * address, int * ierr)
 {
   *ierr = FGet_address(loc, address);
   return MPI_SUCCESS;
-- 
2.43.0

