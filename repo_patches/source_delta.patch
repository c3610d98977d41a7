From fc86c1680dc8972fc2b976a7cb942e5ecf38e8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 01/28] Verification hooks (guard ONA_VERIF)

---
 src/Config.h   |  6 ++++++
 src/Cycle.c    | 12 ++++++++++++
 src/Decision.c |  4 ++++
 src/Memory.c   |  3 +++
 src/NAR.c      |  1 +
 src/Table.c    |  1 +
 src/Verif.h    | 21 +++++++++++++++++++++
 7 files changed, 48 insertions(+)
 create mode 100644 src/Verif.h

diff --git a/src/Config.h b/src/Config.h
index f4b44b7..ae5ab6f 100755
--- a/src/Config.h
+++ b/src/Config.h
@@ -209,4 +209,10 @@
 //Declarative implications allow subgoaling
 #define DECLARATIVE_IMPLICATIONS_SUBGOALING true
 
+//Verification builds can override parameters with a file of their own
+#ifdef ONA_VERIF_CONFIG
+#include ONA_VERIF_CONFIG
+#endif
+#include "Verif.h"
+
 #endif
diff --git a/src/Cycle.c b/src/Cycle.c
index 2d2f300..51110e7 100755
--- a/src/Cycle.c
+++ b/src/Cycle.c
@@ -55,6 +55,7 @@ void Cycle_INIT()
 //doing inference within the matched concept, returning whether decisionMaking should continue
 static Decision Cycle_ActivateSensorimotorConcept(Concept *c, Event *e, long currentTime)
 {
+    VERIF_SCOPE("Activate", c, e, NULL, currentTime, 0)
     Decision decision = {0};
     c->lastSelectionTime = currentTime;
     c->usage = Usage_use(c->usage, currentTime, false);
@@ -81,6 +82,7 @@ static Decision Cycle_ActivateSensorimotorConcept(Concept *c, Event *e, long cur
 //Process an event, by creating a concept, or activating an existing
 static Decision Cycle_ProcessSensorimotorEvent(Event *e, long currentTime)
 {
+    VERIF_SCOPE("Sensorimotor", e, NULL, NULL, currentTime, 0)
     assert(e->occurrenceTime != OCCURRENCE_ETERNAL, "Cycle_ProcessSensorimotorEvent triggered by eternal event");
     Decision best_decision = {0};
     //add a new concept for e if not yet existing
@@ -132,6 +134,7 @@ static Decision Cycle_ProcessSensorimotorEvent(Event *e, long currentTime)
 
 void Cycle_PopEvents(Event *selectionArray, double *selectionPriority, int *selectedCnt, PriorityQueue *queue, int cnt)
 {
+    VERIF_SCOPE("Pop", queue, NULL, NULL, cnt, 0)
     *selectedCnt = 0;
     for(int i=0; i<cnt; i++)
     {
@@ -156,6 +159,7 @@ void Cycle_PopEvents(Event *selectionArray, double *selectionPriority, int *sele
 //{Event (a &/ b)!} |- Event a! Truth_StructuralDeduction
 bool Cycle_GoalSequenceDecomposition(Event *selectedGoal, double selectedGoalPriority, int layer)
 {
+    VERIF_SCOPE("GoalSequence", selectedGoal, NULL, NULL, layer, selectedGoalPriority)
     //1. Extract potential subgoals
     if(!Narsese_copulaEquals(selectedGoal->term.atoms[0], SEQUENCE)) //left-nested sequence
     {
@@ -269,6 +273,7 @@ bool Cycle_GoalSequenceDecomposition(Event *selectedGoal, double selectedGoalPri
 //Propagate subgoals, leading to decisions
 static void Cycle_ProcessAndInferGoalEvents(long currentTime, int layer)
 {
+    VERIF_SCOPE("Goals", NULL, NULL, NULL, layer, 0)
     Decision best_decision = {0};
     //process selected goals
     for(int i=0; i<goalsSelectedCnt; i++)
@@ -370,6 +375,7 @@ static void Cycle_ProcessAndInferGoalEvents(long currentTime, int layer)
 //Reinforce temporal implication link between a's and b's concept (via temporal induction)
 static Implication Cycle_ReinforceLink(Event *a, Event *b)
 {
+    VERIF_SCOPE("Reinforce", a, b, NULL, 0, 0)
     if(a->type != EVENT_TYPE_BELIEF || b->type != EVENT_TYPE_BELIEF)
     {
         return (Implication) {0};
@@ -399,6 +405,7 @@ static Implication Cycle_ReinforceLink(Event *a, Event *b)
 
 void Cycle_ProcessBeliefEvents(long currentTime)
 {
+    VERIF_SCOPE("Beliefs", NULL, NULL, NULL, currentTime, 0)
     for(int h=0; h<beliefsSelectedCnt; h++)
     {
         Event *toProcess = &selectedBeliefs[h];
@@ -694,6 +701,7 @@ void Cycle_SpecialInferences(Term term1, Term term2, Truth truth1, Truth truth2,
 
 void Cycle_Inference(long currentTime)
 {
+    VERIF_SCOPE("Inference", NULL, NULL, NULL, currentTime, 0)
     //Inferences
 #if STAGE==2
     for(int i=0; i<beliefsSelectedCnt; i++)
@@ -716,6 +724,7 @@ void Cycle_Inference(long currentTime)
             double priority = selectedBeliefsPriority[i];
             Term dummy_term = {0};
             Truth dummy_truth = {0};
+            VERIF_POINT("Single", e, NULL, NULL, currentTime, priority)
             RuleTable_Apply(e->term, dummy_term, e->truth, dummy_truth, e->occurrenceTime, 0, e->stamp, currentTime, priority, 1, false, NULL, 0);
             RELATED_CONCEPTS_FOREACH(&e->term, c,
             {
@@ -745,6 +754,7 @@ void Cycle_Inference(long currentTime)
                     {
                         c->usage = Usage_use(c->usage, currentTime, false);
                         Stamp stamp = Stamp_make(&e->stamp, &belief->stamp);
+                        VERIF_POINT("Pair", e, belief, c, currentTime, priority)
                         if(PRINT_CONTROL_INFO)
                         {
                             fputs("Apply rule table on ", stdout);
@@ -775,6 +785,7 @@ void Cycle_Inference(long currentTime)
 
 void Cycle_RelativeForgetting(long currentTime)
 {
+    VERIF_SCOPE("Forgetting", NULL, NULL, NULL, currentTime, 0)
     //Apply event forgetting:
     for(int i=0; i<cycling_belief_events.itemsAmount; i++)
     {
@@ -805,6 +816,7 @@ void Cycle_RelativeForgetting(long currentTime)
 
 void Cycle_Perform(long currentTime)
 {   
+    VERIF_SCOPE("Cycle", NULL, NULL, NULL, currentTime, 0)
     Metric_send("NARNode.Cycle", 1);
     //1a. Retrieve BELIEF_EVENT_SELECTIONS events from cyclings events priority queue (which includes both input and derivations)
     Cycle_PopEvents(selectedBeliefs, selectedBeliefsPriority, &beliefsSelectedCnt, &cycling_belief_events, BELIEF_EVENT_SELECTIONS);
diff --git a/src/Decision.c b/src/Decision.c
index f06bee8..2c3b53d 100755
--- a/src/Decision.c
+++ b/src/Decision.c
@@ -33,6 +33,7 @@ int BABBLING_OPS = OPERATIONS_MAX;
 
 static void Decision_AddNegativeConfirmation(Event *precondition, Implication imp, int operationID, Concept *postc)
 {
+    VERIF_SCOPE("NegativeConfirmation", precondition, &imp, postc, operationID, 0)
     Implication negative_confirmation = imp;
     Truth TNew = { .frequency = 0.0, .confidence = ANTICIPATION_CONFIDENCE };
     Truth TPast = Truth_Projection(precondition->truth, 0, round(imp.occurrenceTimeOffset));
@@ -50,6 +51,7 @@ static void Decision_AddNegativeConfirmation(Event *precondition, Implication im
 //Inject action event after execution or babbling
 void Decision_Execute(long currentTime, Decision *decision)
 {
+    VERIF_SCOPE("Execute", decision, NULL, NULL, currentTime, 0)
     if(FUNCTIONAL_EQUIVALENCE && decision->specific_implication.term.atoms[0] && !Variable_hasVariable(&decision->specific_implication.term, true, true, false))
     {
         Term cons1 = Term_ExtractSubterm(&decision->specific_implication.term, 2);
@@ -555,6 +557,7 @@ Decision Decision_BestCandidate(Concept *goalconcept, Event *goal, long currentT
 
 void Decision_Anticipate(int operationID, Term opTerm, bool declarative, long currentTime)
 {
+    VERIF_SCOPE("Anticipate", &opTerm, NULL, NULL, operationID*2 + declarative, 0)
     assert(operationID >= 0 && operationID <= OPERATIONS_MAX, "Wrong operation id, did you inject an event manually?");
     for(int j=0; j<concepts.itemsAmount; j++)
     {
@@ -682,6 +685,7 @@ void Decision_Anticipate(int operationID, Term opTerm, bool declarative, long cu
 
 Decision Decision_Suggest(Concept *postc, Event *goal, long currentTime)
 {
+    VERIF_SCOPE("Suggest", postc, goal, NULL, currentTime, 0)
     Decision babble_decision = {0};
     //try motor babbling with a certain chance
     if(myrand() < (int)(MOTOR_BABBLING_CHANCE * MY_RAND_MAX))
diff --git a/src/Memory.c b/src/Memory.c
index 47185b7..57e0cea 100755
--- a/src/Memory.c
+++ b/src/Memory.c
@@ -108,6 +108,7 @@ Concept *Memory_FindConceptByTerm(Term *term)
 
 Concept* Memory_Conceptualize(Term *term, long currentTime)
 {
+    VERIF_SCOPE("Conceptualize", term, NULL, NULL, currentTime, 0)
     Concept *ret = Memory_FindConceptByTerm(term);
     if(ret == NULL)
     {
@@ -275,6 +276,7 @@ void Memory_printAddedImplication(Stamp *stamp, Term *implication, Truth *truth,
 
 void Memory_ProcessNewBeliefEvent(Event *event, long currentTime, double priority, bool input)
 {
+    VERIF_SCOPE("NewBelief", event, NULL, NULL, input, priority)
     bool eternalInput = input && event->occurrenceTime == OCCURRENCE_ETERNAL;
     Event eternal_event = Event_Eternalized(event);
     if(Narsese_copulaEquals(event->term.atoms[0], TEMPORAL_IMPLICATION) || Narsese_copulaEquals(event->term.atoms[0], IMPLICATION))
@@ -389,6 +391,7 @@ void Memory_ProcessNewBeliefEvent(Event *event, long currentTime, double priorit
 
 void Memory_AddEvent(Event *event, long currentTime, double priority, bool input, bool derived, bool revised, int layer)
 {
+    VERIF_SCOPE("AddEvent", event, NULL, NULL, layer*8 + input*4 + derived*2 + revised, priority)
     if(RESTRICTED_CONCEPT_CREATION && !input && !Narsese_copulaEquals(event->term.atoms[0], TEMPORAL_IMPLICATION) && Memory_FindConceptByTerm(&event->term) == NULL)
     {
         return;
diff --git a/src/NAR.c b/src/NAR.c
index fd6051c..db833ff 100755
--- a/src/NAR.c
+++ b/src/NAR.c
@@ -54,6 +54,7 @@ void NAR_Cycles(int cycles)
 
 Event NAR_AddInput(Term term, char type, Truth truth, bool eternal, double occurrenceTimeOffset)
 {
+    VERIF_SCOPE("Input", &term, &truth, NULL, type*2 + eternal, occurrenceTimeOffset)
     assert(initialized, "NAR not initialized yet, call NAR_INIT first!");
     Event ev = Event_InputEvent(term, type, truth, occurrenceTimeOffset, currentTime);
     if(eternal)
diff --git a/src/Table.c b/src/Table.c
index bc9ab83..341804f 100755
--- a/src/Table.c
+++ b/src/Table.c
@@ -61,6 +61,7 @@ void Table_Remove(Table *table, int index)
 
 Implication *Table_AddAndRevise(Table *table, Implication *imp)
 {
+    VERIF_SCOPE("Table", table, imp, NULL, 0, 0)
     //1. find element with same Term
     int same_i = -1;
     for(int i=0; i<table->itemsAmount; i++)
diff --git a/src/Verif.h b/src/Verif.h
new file mode 100644
index 0000000..24bee8f
--- /dev/null
+++ b/src/Verif.h
@@ -0,0 +1,21 @@
+#ifndef H_VERIF
+#define H_VERIF
+
+//////////////////////////////////////////////////
+//  Verification hooks (only with ONA_VERIF on) //
+//////////////////////////////////////////////////
+//A scope hook reports when a critical section is entered, with its arguments,
+//and when it is left in whatever way; a point hook reports that a point was reached.
+//The harness which is linked to the system supplies the functions.
+#ifdef ONA_VERIF
+int Verif_Enter(const char *kind, const void *a, const void *b, const void *c, long x, double y);
+void Verif_Leave(int *frame);
+void Verif_Point(const char *kind, const void *a, const void *b, const void *c, long x, double y);
+#define VERIF_SCOPE(...) int verif_frame __attribute__((cleanup(Verif_Leave), unused)) = Verif_Enter(__VA_ARGS__);
+#define VERIF_POINT(...) Verif_Point(__VA_ARGS__);
+#else
+#define VERIF_SCOPE(...)
+#define VERIF_POINT(...)
+#endif
+
+#endif
-- 
2.43.0


From 42b2b2c88a315d18b373c5c6751f0d3f661ca8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:59 +0000
Subject: [PATCH 02/28] fix: do not build the antecedent of a procedural link
 from overlapping evidence

---
 src/Cycle.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Cycle.c b/src/Cycle.c
index 51110e7..fb45ad4 100755
--- a/src/Cycle.c
+++ b/src/Cycle.c
@@ -438,7 +438,8 @@ void Cycle_ProcessBeliefEvents(long currentTime)
                         if(!wasProcessed3 && prec->belief_spike.type != EVENT_TYPE_DELETED && prec->belief_spike.creationTime < currentTime && prec->belief_spike.occurrenceTime < opc->belief_spike.occurrenceTime &&
                            labs(prec->belief_spike.occurrenceTime - postcondition.occurrenceTime) < PRECONDITION_CONSEQUENCE_DISTANCE && labs(prec->lastSelectionTime - postcondition.occurrenceTime) < PRECONDITION_CONSEQUENCE_DISTANCE &&
                            !Narsese_copulaEquals(prec->belief_spike.term.atoms[0], EQUIVALENCE) && !Narsese_copulaEquals(prec->belief_spike.term.atoms[0], IMPLICATION) &&
-                           !Stamp_checkOverlap(&prec->belief_spike.stamp, &postcondition.stamp) && !Memory_getOperationID(&prec->term))
+                           !Stamp_checkOverlap(&prec->belief_spike.stamp, &postcondition.stamp) && !Stamp_checkOverlap(&prec->belief_spike.stamp, &opc->belief_spike.stamp) &&
+                           !Memory_getOperationID(&prec->term))
                         {
                             bool success4;
                             Event seq_op_cur = Inference_BeliefIntersection(&prec->belief_spike, &opc->belief_spike, &success4);
-- 
2.43.0


From 2cc6e1c5ee96e9b5ec1320da0789a761b54cd994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:37 +0000
Subject: [PATCH 03/28] Verification hooks: uses of learned implications

---
 src/Cycle.c    | 2 ++
 src/Decision.c | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/Cycle.c b/src/Cycle.c
index fb45ad4..d600ca1 100755
--- a/src/Cycle.c
+++ b/src/Cycle.c
@@ -331,6 +331,7 @@ static void Cycle_ProcessAndInferGoalEvents(long currentTime, int layer)
                             updated_imp.term = Variable_ApplySubstitute(updated_imp.term, subs, &success);
                             if(success)
                             {
+                                VERIF_POINT("Subgoal", &c->goal_spike, imp, c, layer, selectedGoalsPriority[i])
                                 Event newGoal = Inference_GoalDeduction(&c->goal_spike, &updated_imp, currentTime);
                                 Event newGoalUpdated = Inference_EventUpdate(&newGoal, currentTime);
                                 IN_DEBUG( fputs("derived goal ", stdout); Narsese_PrintTerm(&newGoalUpdated.term); puts(""); )
@@ -359,6 +360,7 @@ static void Cycle_ProcessAndInferGoalEvents(long currentTime, int layer)
                             updated_imp.term = Variable_ApplySubstitute(updated_imp.term, subs, &success);
                             if(success)
                             {
+                                VERIF_POINT("Subgoal", &c->goal_spike, imp, c, layer, selectedGoalsPriority[i])
                                 Event newGoal = Inference_GoalDeduction(&c->goal_spike, &updated_imp, currentTime);
                                 Event newGoalUpdated = Inference_EventUpdate(&newGoal, currentTime);
                                 IN_DEBUG( fputs("derived goal ", stdout); Narsese_PrintTerm(&newGoalUpdated.term); puts(""); )
diff --git a/src/Decision.c b/src/Decision.c
index 2c3b53d..944a0d4 100755
--- a/src/Decision.c
+++ b/src/Decision.c
@@ -328,6 +328,7 @@ static Decision Decision_ConsiderNegativeOutcomes(Decision decision)
                     assert(Narsese_OperationSequenceAppendLeftNested(&opTerm2, &imp_subject), "Failed to extract operation in bad implication!");
                     if(Term_Equal(&decision.operationTerm, &opTerm2))
                     {
+                        VERIF_POINT("Outcome", &c->goal_spike, &imp, c, decision.operationID[0], 0)
                         Event ContextualOperation = Inference_GoalDeduction(&c->goal_spike, &imp, currentTime); //(&/,a,op())! :\:
                         Event OpGoalLocal = Inference_GoalSequenceDeduction(&ContextualOperation, &prec->belief_spike, currentTime);
                         OpGoalImmediateOutcomes = Inference_RevisionAndChoice(&OpGoalImmediateOutcomes, &OpGoalLocal, currentTime, NULL);
@@ -480,6 +481,7 @@ Decision Decision_BestCandidate(Concept *goalconcept, Event *goal, long currentT
                                 {
                                     specific_imp.sourceConcept = cmatch;
                                     specific_imp.sourceConceptId = cmatch->id;
+                                    VERIF_POINT("Consider", goal, &goalconcept->precondition_beliefs[opi].array[j], cmatch, opi, 0)
                                     Decision considered = Decision_ConsiderImplication(currentTime, goal, &specific_imp, subs2.truth);
                                     int specific_imp_complexity = Term_Complexity(&specific_imp.term);
                                     if(impHasVariable)
@@ -629,6 +631,7 @@ void Decision_Anticipate(int operationID, Term opTerm, bool declarative, long cu
                 Event seqop = Inference_BeliefIntersection(&updated_precondition, &op, &success);
                 if(success)
                 {
+                    VERIF_POINT("Predict", precondition, &imp, postc, operationID, 0)
                     Event result = Inference_BeliefDeduction(operationID == 0 ? precondition : &seqop, &imp); //b. :/:
                     if(Narsese_copulaEquals(imp.term.atoms[0], IMPLICATION) || Truth_Expectation(result.truth) > ANTICIPATION_THRESHOLD || (result.truth.confidence < SUBSUMPTION_CONFIDENCE_THRESHOLD && result.truth.frequency == 0.0)) //also allow for failing derived implications to subsume
                     {
-- 
2.43.0


From d03a8efded0933628fdd70daa7e670cdfbd59551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:03 +0000
Subject: [PATCH 04/28] fix: a learned implication was stored with another
 concept when the one of its consequence was forgotten to make room for its
 antecedent

---
 src/Memory.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Memory.c b/src/Memory.c
index 57e0cea..e70b139 100755
--- a/src/Memory.c
+++ b/src/Memory.c
@@ -288,6 +288,7 @@ void Memory_ProcessNewBeliefEvent(Event *event, long currentTime, double priorit
         if(target_concept != NULL)
         {
             target_concept->usage = Usage_use(target_concept->usage, currentTime, eternalInput);
+            long target_concept_id = target_concept->id;
             Implication imp = { .truth = eternal_event.truth,
                                 .stamp = eternal_event.stamp,
                                 .occurrenceTimeOffset = event->occurrenceTimeOffset,
@@ -323,6 +324,15 @@ void Memory_ProcessNewBeliefEvent(Event *event, long currentTime, double priorit
                 imp.sourceConceptId = source_concept->id;
                 imp.sourceConcept = source_concept;
                 imp.term = event->term;
+                if(target_concept->id != target_concept_id) //the target was forgotten to make room for the source
+                {
+                    target_concept = Memory_Conceptualize(&predicate, currentTime);
+                    if(target_concept == NULL)
+                    {
+                        return;
+                    }
+                    target_concept->usage = Usage_use(target_concept->usage, currentTime, eternalInput);
+                }
                 Implication *revised = Table_AddAndRevise(Narsese_copulaEquals(event->term.atoms[0], IMPLICATION) ? &target_concept->implication_links : &target_concept->precondition_beliefs[opi], &imp);
                 if(revised != NULL)
                 {
-- 
2.43.0


From 221c61e2a690614ffc440635f6024ea2e3a47ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:14 +0000
Subject: [PATCH 05/28] fix: links whose antecedent concept was forgotten were
 considered when deciding

---
 src/Decision.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Decision.c b/src/Decision.c
index 944a0d4..2d8acda 100755
--- a/src/Decision.c
+++ b/src/Decision.c
@@ -320,6 +320,10 @@ static Decision Decision_ConsiderNegativeOutcomes(Decision decision)
             for(int j=0; j<c->precondition_beliefs[decision.operationID[0]].itemsAmount; j++)
             {
                 Implication imp = c->precondition_beliefs[decision.operationID[0]].array[j];
+                if(!Memory_ImplicationValid(&imp))
+                {
+                    continue;
+                }
                 Concept *prec = imp.sourceConcept;
                 if(prec->belief_spike.type != EVENT_TYPE_DELETED && currentTime - prec->belief_spike.occurrenceTime < EVENT_BELIEF_DISTANCE)
                 {
@@ -456,6 +460,10 @@ Decision Decision_BestCandidate(Concept *goalconcept, Event *goal, long currentT
                                     for(int k=0; k<goalconcept->precondition_beliefs[opk].itemsAmount; k++)
                                     {
                                         Implication impk = goalconcept->precondition_beliefs[opk].array[k];
+                                        if(!Memory_ImplicationValid(&impk))
+                                        {
+                                            continue;
+                                        }
                                         Term left_side_with_opk = Term_ExtractSubterm(&impk.term, 1);
                                         Term left_sidek = Narsese_GetPreconditionWithoutOp(&left_side_with_opk);
                                         Substitution subs3 = Variable_UnifyWithAnalogy(cmatch->belief_spike.truth, &left_sidek, &cmatch->term);
-- 
2.43.0


From 784a2a536393cb8170767c7511d237a199cfdd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:46 +0000
Subject: [PATCH 06/28] fix: predictions used links and concepts that were
 forgotten while predicting

---
 src/Decision.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/Decision.c b/src/Decision.c
index 2d8acda..5f7ed4d 100755
--- a/src/Decision.c
+++ b/src/Decision.c
@@ -572,6 +572,7 @@ void Decision_Anticipate(int operationID, Term opTerm, bool declarative, long cu
     for(int j=0; j<concepts.itemsAmount; j++)
     {
         Concept *postc = concepts.items[j].address;
+        long postc_id = postc->id;
         Implication valid_implications[TABLE_SIZE*2] = {0};
         int k=0;
         if(!declarative)
@@ -606,6 +607,14 @@ void Decision_Anticipate(int operationID, Term opTerm, bool declarative, long cu
         for(int h=0; h<k; h++)
         {
             Implication imp = valid_implications[h]; //(&/,a,op) =/> b.
+            if(postc->id != postc_id) //forgotten to make room for the concept of a former prediction
+            {
+                break;
+            }
+            if(!Memory_ImplicationValid(&imp)) //as well
+            {
+                continue;
+            }
             Concept *current_prec = imp.sourceConcept;
             Event *precondition = &current_prec->belief_spike;
             if(precondition != NULL && precondition->type != EVENT_TYPE_DELETED)
@@ -647,6 +656,7 @@ void Decision_Anticipate(int operationID, Term opTerm, bool declarative, long cu
                         {
                             Decision_AddNegativeConfirmation(precondition, imp, operationID, postc);
                         }
+                        bool overlap = Stamp_checkOverlap(&precondition->stamp, &imp.stamp);
                         Substitution subs = Variable_Unify(&current_prec->term, &precondition->term);
                         if(subs.success)
                         {
@@ -655,7 +665,7 @@ void Decision_Anticipate(int operationID, Term opTerm, bool declarative, long cu
                             if(success2)
                             {
                                 Concept *c = Memory_Conceptualize(&result.term, currentTime);
-                                if(c != NULL && !Stamp_checkOverlap(&precondition->stamp, &imp.stamp))
+                                if(c != NULL && !overlap)
                                 {
                                     c->usage = Usage_use(c->usage, currentTime, false);
                                     if(Narsese_copulaEquals(imp.term.atoms[0], TEMPORAL_IMPLICATION))
-- 
2.43.0


From 26954782ce3c890c88aa9ba6d440598e50be4f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:46 +0000
Subject: [PATCH 07/28] fix: *concurrent without a preceding input made the
 clock zero, leading to a division by zero

---
 src/Shell.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Shell.c b/src/Shell.c
index d362c30..a025d03 100755
--- a/src/Shell.c
+++ b/src/Shell.c
@@ -412,7 +412,10 @@ int Shell_ProcessInput(char *line)
         else
         if(!strncmp("*concurrent", line, strlen("*concurrent")))
         {
-            currentTime-=1;
+            if(currentTime > 1) //there is no earlier time to share
+            {
+                currentTime-=1;
+            }
         }
         else
         {
-- 
2.43.0


From 1ba4fc29dbfb44f5681119e61618eefab770bc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:46 +0000
Subject: [PATCH 08/28] fix: a revised implication was lost when its concept
 was forgotten while it was added

---
 src/Memory.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Memory.c b/src/Memory.c
index e70b139..6930c63 100755
--- a/src/Memory.c
+++ b/src/Memory.c
@@ -389,10 +389,11 @@ void Memory_ProcessNewBeliefEvent(Event *event, long currentTime, double priorit
             }
             if(revision_happened)
             {
-                Memory_AddEvent(&c->belief, currentTime, priority, false, true, true, 0);
+                Event revised_belief = c->belief; //a copy, as the concept can be forgotten when its revised belief is added
+                Memory_AddEvent(&revised_belief, currentTime, priority, false, true, true, 0);
                 if(event->occurrenceTime == OCCURRENCE_ETERNAL)
                 {
-                    Memory_printAddedEvent(&c->belief.stamp, &c->belief, priority, false, false, true, true, false);
+                    Memory_printAddedEvent(&revised_belief.stamp, &revised_belief, priority, false, false, true, true, false);
                 }
             }
         }
-- 
2.43.0


From b26436abf10df01da61c331badbb072a2f610fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:11 +0000
Subject: [PATCH 09/28] fix: substitution replaced variables inside the terms
 it had just inserted

---
 src/Variable.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Variable.c b/src/Variable.c
index 63172f6..af7608b 100755
--- a/src/Variable.c
+++ b/src/Variable.c
@@ -130,6 +130,7 @@ Term Variable_ApplySubstitute(Term general, Substitution substitution, bool *suc
 {
     assert(substitution.success, "A substitution from unsuccessful unification cannot be used to substitute variables!");
     *success = true;
+    Term ret = general;
     for(int i=0; i<COMPOUND_TERM_SIZE_MAX; i++)
     {
         Atom general_atom = general.atoms[i];
@@ -137,13 +138,13 @@ Term Variable_ApplySubstitute(Term general, Substitution substitution, bool *suc
         assert(!is_variable || general_atom <= 27, "Variable_ApplySubstitute: Problematic variable encountered, only $1-$9, #1-#9 and ?1-?9 are allowed!");
         if(is_variable && substitution.map[(int) general_atom].atoms[0] != 0)
         {
-            if(!Term_OverrideSubterm(&general, i, &substitution.map[(int) general_atom]))
+            if(!Term_OverrideSubterm(&ret, i, &substitution.map[(int) general_atom]))
             {
                 *success = false;
             }
         }
     }
-    return general;
+    return ret;
 }
 
 //Search for variables which appear twice extensionally, if also appearing in the right side of the implication
-- 
2.43.0


From 5d882d32f90bb1c75fcbc3a7c2554f871e2b73f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:00 +0000
Subject: [PATCH 10/28] fix: sequence goals of five elements wrote behind the
 array of their elements

---
 src/Cycle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Cycle.c b/src/Cycle.c
index d600ca1..b909afa 100755
--- a/src/Cycle.c
+++ b/src/Cycle.c
@@ -165,7 +165,7 @@ bool Cycle_GoalSequenceDecomposition(Event *selectedGoal, double selectedGoalPri
     {
         return false;
     }
-    Term componentGoalsTerm[MAX_SEQUENCE_LEN+1] = {0};
+    Term componentGoalsTerm[MAX_SEQUENCE_LEN+2] = {0}; //a sequence with copula count i<=MAX_SEQUENCE_LEN+1 has one element more
     Term cur_seq = selectedGoal->term;
     int i=0;
     for(; Narsese_copulaEquals(cur_seq.atoms[0], SEQUENCE); i++)
-- 
2.43.0


From ffcbead54cd9fe8e9a30e8ecc34e14c831725846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:26 +0000
Subject: [PATCH 11/28] Verification hooks: suggested decisions

---
 src/Decision.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Decision.c b/src/Decision.c
index 5f7ed4d..bd573d7 100755
--- a/src/Decision.c
+++ b/src/Decision.c
@@ -715,6 +715,7 @@ Decision Decision_Suggest(Concept *postc, Event *goal, long currentTime)
     }
     //try matching op if didn't motor babble
     Decision decision_suggested = Decision_BestCandidate(postc, goal, currentTime);
+    VERIF_POINT("Suggested", &babble_decision, &decision_suggested, postc, currentTime, 0)
     if(!babble_decision.execute || decision_suggested.desire > MOTOR_BABBLING_SUPPRESSION_THRESHOLD)
     {
        return decision_suggested;
-- 
2.43.0


From 3ade2aac6466f5e121cbb6c82eb32e8bba30a809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:21 +0000
Subject: [PATCH 12/28] fix: *babblingops=0 led to a division by zero when
 babbling

---
 src/Decision.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Decision.c b/src/Decision.c
index bd573d7..e7e4a3e 100755
--- a/src/Decision.c
+++ b/src/Decision.c
@@ -279,7 +279,7 @@ static Decision Decision_MotorBabbling()
     {
         n_ops = i+1;
     }
-    if(n_ops > 0)
+    if(n_ops > 0 && BABBLING_OPS > 0)
     {
         decision.operationID[0] = 1+(myrand() % (MIN(BABBLING_OPS, n_ops)));
         IN_DEBUG (
-- 
2.43.0


From 0e593743d6b4049a18c89ca0584f14bac8c3d174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:46 +0000
Subject: [PATCH 13/28] fix: implications predicted twice or not at all when a
 prediction created a concept

---
 src/Decision.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/Decision.c b/src/Decision.c
index e7e4a3e..744f7fa 100755
--- a/src/Decision.c
+++ b/src/Decision.c
@@ -569,10 +569,23 @@ void Decision_Anticipate(int operationID, Term opTerm, bool declarative, long cu
 {
     VERIF_SCOPE("Anticipate", &opTerm, NULL, NULL, operationID*2 + declarative, 0)
     assert(operationID >= 0 && operationID <= OPERATIONS_MAX, "Wrong operation id, did you inject an event manually?");
-    for(int j=0; j<concepts.itemsAmount; j++)
+    //predictions create concepts, which re-arranges the queue of concepts, so that concepts would be missed or visited twice
+    static Concept *postconditions[CONCEPTS_MAX];
+    static long postcondition_ids[CONCEPTS_MAX];
+    int postconditions_amount = concepts.itemsAmount;
+    for(int j=0; j<postconditions_amount; j++)
     {
-        Concept *postc = concepts.items[j].address;
-        long postc_id = postc->id;
+        postconditions[j] = concepts.items[j].address;
+        postcondition_ids[j] = postconditions[j]->id;
+    }
+    for(int j=0; j<postconditions_amount; j++)
+    {
+        Concept *postc = postconditions[j];
+        long postc_id = postcondition_ids[j];
+        if(postc->id != postc_id) //forgotten to make room for the concept of a former prediction
+        {
+            continue;
+        }
         Implication valid_implications[TABLE_SIZE*2] = {0};
         int k=0;
         if(!declarative)
-- 
2.43.0


From 0acdccef9b4c6ebffae7aa847628d03463290c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:51 +0000
Subject: [PATCH 14/28] fix: after the feedback of an operation, a missing
 special case was refuted with the event of another concept if its own was
 forgotten meanwhile

---
 src/Decision.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Decision.c b/src/Decision.c
index 744f7fa..6f60d4e 100755
--- a/src/Decision.c
+++ b/src/Decision.c
@@ -257,7 +257,7 @@ void Decision_Execute(long currentTime, Decision *decision)
             {
                 Term postcondition = Term_ExtractSubterm(&decision->missing_specific_implication.term, 2);
                 Concept *postc = Memory_Conceptualize(&postcondition, currentTime);
-                if(postc != NULL)
+                if(postc != NULL && Memory_ImplicationValid(&decision->missing_specific_implication)) //its antecedent's concept, which holds the reason, could have been forgotten
                 {
                     Decision_AddNegativeConfirmation(decision->reason, decision->missing_specific_implication, decision->operationID[i], postc);
                 }
-- 
2.43.0


From 16b5cbf1e2d93a3d7d9c2f00d3c9c33513cd6a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:28 +0000
Subject: [PATCH 15/28] fix: the belief selected in a cycle was replaced by the
 one of the cycle nested in it for the feedback of an executed operation, and
 never used for inference

---
 src/Cycle.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Cycle.c b/src/Cycle.c
index b909afa..ffb1f8e 100755
--- a/src/Cycle.c
+++ b/src/Cycle.c
@@ -297,8 +297,16 @@ static void Cycle_ProcessAndInferGoalEvents(long currentTime, int layer)
         }
         //also don't re-add the selected goal:
         goalsSelectedCnt = 0;
-        //execute decision
+        //execute decision, keeping the selected beliefs as the cycle which processes the feedback event selects others
+        Event keptBeliefs[BELIEF_EVENT_SELECTIONS];
+        double keptBeliefsPriority[BELIEF_EVENT_SELECTIONS];
+        int keptBeliefsCnt = beliefsSelectedCnt;
+        memcpy(keptBeliefs, selectedBeliefs, sizeof(keptBeliefs));
+        memcpy(keptBeliefsPriority, selectedBeliefsPriority, sizeof(keptBeliefsPriority));
         Decision_Execute(currentTime, &best_decision);
+        memcpy(selectedBeliefs, keptBeliefs, sizeof(keptBeliefs));
+        memcpy(selectedBeliefsPriority, keptBeliefsPriority, sizeof(keptBeliefsPriority));
+        beliefsSelectedCnt = keptBeliefsCnt;
     }
     //pass goal spikes on to the next
     for(int i=0; i<goalsSelectedCnt && !best_decision.execute; i++)
-- 
2.43.0


From 52dd71b7061141687806c50838de986f63d91622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:34 +0000
Subject: [PATCH 16/28] fix: generalization reused variables that the term
 already contains: (&&,<#3 --> a>,...) with three repeated atoms merged one of
 them with the existing #3

---
 src/Variable.c | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/Variable.c b/src/Variable.c
index af7608b..f0c36f8 100755
--- a/src/Variable.c
+++ b/src/Variable.c
@@ -310,9 +310,7 @@ Term Variable_IntroduceImplicationVariables2(Term implication, bool *success, bo
     }
     countHigherOrderStatementAtoms(&left_side,  &HT_appearing_left,  extensionally, sideOfProduct);
     countHigherOrderStatementAtoms(&right_side, &HT_appearing_right, extensionally, sideOfProduct);
-    char depvar_i = newVarID(&implication, false);
-    char indepvar_i = newVarID(&implication, true);
-    if(!depvar_i || !indepvar_i)
+    if(!newVarID(&implication, false) || !newVarID(&implication, true))
     {
         *success = false;
         return implication;
@@ -332,10 +330,10 @@ Term Variable_IntroduceImplicationVariables2(Term implication, bool *success, bo
                 int var_id = (intptr_t) HashTable_Get(&HT_variable_id, (void*) (intptr_t) atom);
                 if(!var_id)
                 {
-                    var_id = indepvar_i++;
+                    var_id = newVarID(&implication, true); //the next one which does not appear yet
                     HashTable_Set(&HT_variable_id, (void*) (intptr_t) atom, (void*) (intptr_t) var_id);
                 }
-                if(var_id <= 9) //can only introduce up to 9 variables
+                if(var_id) //can only introduce up to 9 variables
                 {
                     char varname[3] = { '$', ('0' + var_id), 0 }; //$i
                     Term varterm = Narsese_AtomicTerm(varname);
@@ -355,10 +353,10 @@ Term Variable_IntroduceImplicationVariables2(Term implication, bool *success, bo
                 int var_id = (intptr_t) HashTable_Get(&HT_variable_id, (void*) (intptr_t) atom);
                 if(!var_id)
                 {
-                    var_id = depvar_i++;
+                    var_id = newVarID(&implication, false);
                     HashTable_Set(&HT_variable_id, (void*) (intptr_t) atom, (void*) (intptr_t) var_id);
                 }
-                if(var_id <= 9) //can only introduce up to 9 variables
+                if(var_id) //can only introduce up to 9 variables
                 {
                     char varname[3] = { '#', ('0' + var_id), 0 }; //#i
                     Term varterm = Narsese_AtomicTerm(varname);
@@ -394,8 +392,7 @@ Term Variable_IntroduceConjunctionVariables(Term conjunction, bool *success, boo
     HashTable_INIT(&HT_variable_id,  HT_variable_id_storage, HT_variable_id_storageptrs,  HT_variable_id_HT,  VAR_INTRO_HASHTABLE_BUCKETS, COMPOUND_TERM_SIZE_MAX, (Equal) Atom_Equal, (Hash) Atom_Hash);
     Term left_side = conjunction;
     countHigherOrderStatementAtoms(&left_side, &HT_appearing_left, extensionally, 0);
-    char depvar_i = newVarID(&conjunction, false);
-    if(!depvar_i)
+    if(!newVarID(&conjunction, false))
     {
         *success = false;
         return conjunction;
@@ -411,10 +408,10 @@ Term Variable_IntroduceConjunctionVariables(Term conjunction, bool *success, boo
             int var_id = (intptr_t) HashTable_Get(&HT_variable_id, (void*) (intptr_t) atom);
             if(!var_id)
             {
-                var_id = depvar_i++;
+                var_id = newVarID(&conjunction, false);
                 HashTable_Set(&HT_variable_id, (void*) (intptr_t) atom, (void*) (intptr_t) var_id);
             }
-            if(var_id <= 9) //can only introduce up to 9 variables
+            if(var_id) //can only introduce up to 9 variables
             {
                 char varname[3] = { '#', ('0' + var_id), 0 }; //#i
                 Term varterm = Narsese_AtomicTerm(varname);
-- 
2.43.0


From 62608654a733999856f21b3372200b12961263ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:09 +0000
Subject: [PATCH 17/28] fix: questions about temporal implications left out
 those with the last operation

---
 src/NAR.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NAR.c b/src/NAR.c
index db833ff..1c2f264 100755
--- a/src/NAR.c
+++ b/src/NAR.c
@@ -188,7 +188,7 @@ void NAR_AddInputNarsese2(char *narsese_sentence, bool queryCommand, double answ
             }
             if(isImplication)
             {
-                for(int op_k = 0; op_k<OPERATIONS_MAX; op_k++)
+                for(int op_k = 0; op_k<=OPERATIONS_MAX; op_k++)
                 {
                     for(int j=0; j<c->precondition_beliefs[op_k].itemsAmount; j++)
                     {
-- 
2.43.0


From 79f08cbf537936fd44a0603770e8a7b7dc69c24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:09 +0000
Subject: [PATCH 18/28] fix: *concepts left out the implications with the last
 operation

---
 src/Shell.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Shell.c b/src/Shell.c
index a025d03..6e02a11 100755
--- a/src/Shell.c
+++ b/src/Shell.c
@@ -196,7 +196,7 @@ int Shell_ProcessInput(char *line)
                 {
                     Memory_printAddedEvent(&c->belief.stamp, &c->belief, 1, true, false, false, false, false);
                 }
-                for(int opi=0; opi<OPERATIONS_MAX; opi++)
+                for(int opi=0; opi<=OPERATIONS_MAX; opi++)
                 {
                     for(int h=0; h<c->precondition_beliefs[opi].itemsAmount; h++)
                     {
-- 
2.43.0


From 9af1aa5047438e6671beb7eb49061d3aa1f2ab61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:31 +0000
Subject: [PATCH 19/28] fix: evidence given with *stampimport for the next
 input survived a reset

---
 src/Event.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Event.c b/src/Event.c
index e8b0f1f..69f0c9b 100755
--- a/src/Event.c
+++ b/src/Event.c
@@ -49,6 +49,7 @@ Event Event_InputEvent(Term term, char type, Truth truth, double occurrenceTimeO
 void Event_INIT()
 {
     base = 1;
+    importstamp = (Stamp) {0};
 }
 
 bool Event_Equal(Event *event, Event *existing)
-- 
2.43.0


From f5fb3d385670317cf54324721844fc1ab6c4f706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:31 +0000
Subject: [PATCH 20/28] fix: the count of matched concepts, which the concept
 priority threshold adapts to, survived a reset

---
 src/Cycle.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Cycle.c b/src/Cycle.c
index ffb1f8e..9140d6e 100755
--- a/src/Cycle.c
+++ b/src/Cycle.c
@@ -50,6 +50,8 @@ void Cycle_INIT()
     conceptProcessID = 0;
     conceptProcessID2 = 0;
     conceptProcessID3 = 0;
+    Stats_countConceptsMatchedTotal = 0; //the concept priority threshold adapts to it
+    Stats_countConceptsMatchedMax = 0;
 }
 
 //doing inference within the matched concept, returning whether decisionMaking should continue
-- 
2.43.0


From 251b4b2622302cdfca8882823b353a29c83ffee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:47 +0000
Subject: [PATCH 21/28] fix: with a decision threshold of 0, a goal without any
 candidate crashed the decision

---
 src/Decision.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Decision.c b/src/Decision.c
index 6f60d4e..b9c2746 100755
--- a/src/Decision.c
+++ b/src/Decision.c
@@ -552,7 +552,7 @@ Decision Decision_BestCandidate(Concept *goalconcept, Event *goal, long currentT
             }
         }
     }
-    if(decision.desire < DECISION_THRESHOLD)
+    if(decision.reason == NULL || decision.desire < DECISION_THRESHOLD) //no candidate, which also a threshold of 0 demands
     {
         return (Decision) {0}; 
     }
-- 
2.43.0


From 67bd4cfd9eef4818b23f4a9068171c0d710ef73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:29 +0000
Subject: [PATCH 22/28] fix: renumbering variables of input merged variables
 when a new name was still in use: <<$2 --> $1> ==> <$2 --> b>> became <<$1
 --> $2> ==> <$2 --> b>>

---
 src/Variable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Variable.c b/src/Variable.c
index f0c36f8..3a402fb 100755
--- a/src/Variable.c
+++ b/src/Variable.c
@@ -444,7 +444,7 @@ void Variable_Normalize(Term *term)
             for(int k=j; k<COMPOUND_TERM_SIZE_MAX; k++)
             {
                 Atom atom2 = term->atoms[k];
-                if(atom == atom2)
+                if(!normalized[k] && atom == atom2)
                 {
                     term->atoms[k] = Narsese_AtomicTermIndex(varname);
                     normalized[k] = true;
-- 
2.43.0


From 50d14a91e7ede30a5c9a600aba5a347785271195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:30 +0000
Subject: [PATCH 23/28] fix: a time offset of more than 27 characters was
 written past the end of its buffer

---
 src/Narsese.c | 17 ++---------------
 1 file changed, 2 insertions(+), 15 deletions(-)

diff --git a/src/Narsese.c b/src/Narsese.c
index 9ec4e67..83a07f5 100755
--- a/src/Narsese.c
+++ b/src/Narsese.c
@@ -378,23 +378,10 @@ void Narsese_Sentence(char *narsese, Term *destTerm, char *punctuation, int *ten
     assert(initialized, "Narsese not initialized, call Narsese_INIT first!");
     //Handle optional dt=num at beginning of line
     *occurrenceTimeOffset = 0.0;
-    char dt[30];
     if(narsese[0] == 'd' && narsese[1] == 't'  && narsese[2] == '=') //dt=
     {
-        for(unsigned int i=0; i<strlen(narsese); i++)
-        {
-            if(i>=3)
-            {
-                dt[i-3] = narsese[i];
-            }
-            if(narsese[i] == ' ')
-            {
-                dt[i] = 0;
-                narsese = &narsese[i];
-                break;
-            }
-        }
-        *occurrenceTimeOffset = atof(dt);
+        *occurrenceTimeOffset = atof(&narsese[3]);
+        narsese = &narsese[strcspn(narsese, " ")];
     }
     //Handle the rest of the Narsese:
     char narseseInplace[NARSESE_LEN_MAX] = {0};
-- 
2.43.0


From 940a73afba19d3cd08083c7470eb263686c80204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:30 +0000
Subject: [PATCH 24/28] fix: a compound nested too deeply was written past the
 end of the term before it was refused

---
 src/Narsese.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Narsese.c b/src/Narsese.c
index 83a07f5..3c8c276 100755
--- a/src/Narsese.c
+++ b/src/Narsese.c
@@ -328,6 +328,7 @@ int Narsese_CopulaIndex(char name)
 //Encodes a binary tree in an array, based on the the S-expression tokenization with prefix order
 void buildBinaryTree(Term *bintree, char** tokens_prefix, int i1, int tree_index, int nt)
 {
+    assert(tree_index-1 < COMPOUND_TERM_SIZE_MAX, "COMPOUND_TERM_SIZE_MAX too small, consider increasing or split input into multiple statements!");
     if(tokens_prefix[i1][0] == '(' && tokens_prefix[i1][1] == 0)
     {
         int icop = i1+1;
@@ -347,7 +348,6 @@ void buildBinaryTree(Term *bintree, char** tokens_prefix, int i1, int tree_index
     }
     else
     {
-        assert(tree_index-1 < COMPOUND_TERM_SIZE_MAX, "COMPOUND_TERM_SIZE_MAX too small, consider increasing or split input into multiple statements!");
         if(!(tokens_prefix[i1][0] == ')' && tokens_prefix[i1][1] == 0))
         {
             bintree->atoms[tree_index-1] = Narsese_AtomicTermIndex(tokens_prefix[i1]);
-- 
2.43.0


From f3b6645a5be0ee32d5d0c9f968c99caabff8cc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:12 +0000
Subject: [PATCH 25/28] fix: a datagram without terminator was processed
 together with what was left of the previous one

---
 src/NetworkNAR/UDP.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/NetworkNAR/UDP.c b/src/NetworkNAR/UDP.c
index 70c3749..a892929 100755
--- a/src/NetworkNAR/UDP.c
+++ b/src/NetworkNAR/UDP.c
@@ -45,7 +45,8 @@ void UDP_ReceiveData(int sockfd, char *buffer, int buffersize)
 {
     struct sockaddr_in address_other;
     socklen_t addr_size = sizeof(address_other);
-    recvfrom(sockfd, buffer, buffersize, 0, (struct sockaddr*)& address_other, &addr_size);
+    ssize_t received = recvfrom(sockfd, buffer, buffersize-1, 0, (struct sockaddr*)& address_other, &addr_size);
+    buffer[received > 0 ? received : 0] = 0; //senders do not need to include the terminator
     IN_DEBUG( printf("//UDP Data received: %s\n", buffer); )
 }
 
-- 
2.43.0


From f452d3b5cefeddb035aa9d41d20eafabaf1fdace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:12 +0000
Subject: [PATCH 26/28] fix: the reasoner thread read the timestep from the
 stack frame of UDPNAR_Start, which may have returned already

---
 src/NetworkNAR/UDPNAR.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NetworkNAR/UDPNAR.c b/src/NetworkNAR/UDPNAR.c
index f1b927d..1c65715 100755
--- a/src/NetworkNAR/UDPNAR.c
+++ b/src/NetworkNAR/UDPNAR.c
@@ -31,10 +31,10 @@ pthread_mutex_t nar_mutex = PTHREAD_MUTEX_INITIALIZER;
 
 void* Reasoner_Thread_Run(void* timestep_address)
 {
+    long timestep = *((long*) timestep_address); //read before UDPNAR_Start can return
     pthread_mutex_lock(&start_mutex);
     pthread_cond_signal(&start_cond);
     pthread_mutex_unlock(&start_mutex);
-    long timestep = *((long*) timestep_address);
     assert(timestep >= 0, "Nonsensical timestep for UDPNAR!");
     while(!Stopped)
     {
-- 
2.43.0


From 9ab719cbd22112d2bb04ec79de244fffb27360e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:12 +0000
Subject: [PATCH 27/28] fix: a spurious wakeup let UDPNAR_Start return before
 its threads were running

---
 src/NetworkNAR/UDPNAR.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/NetworkNAR/UDPNAR.c b/src/NetworkNAR/UDPNAR.c
index 1c65715..f36f0d1 100755
--- a/src/NetworkNAR/UDPNAR.c
+++ b/src/NetworkNAR/UDPNAR.c
@@ -27,12 +27,14 @@
 volatile bool Stopped = false;
 pthread_cond_t start_cond = PTHREAD_COND_INITIALIZER;
 pthread_mutex_t start_mutex = PTHREAD_MUTEX_INITIALIZER;
+int threadsRunning = 0; //guarded by start_mutex
 pthread_mutex_t nar_mutex = PTHREAD_MUTEX_INITIALIZER;
 
 void* Reasoner_Thread_Run(void* timestep_address)
 {
     long timestep = *((long*) timestep_address); //read before UDPNAR_Start can return
     pthread_mutex_lock(&start_mutex);
+    threadsRunning++;
     pthread_cond_signal(&start_cond);
     pthread_mutex_unlock(&start_mutex);
     assert(timestep >= 0, "Nonsensical timestep for UDPNAR!");
@@ -52,6 +54,7 @@ void* Reasoner_Thread_Run(void* timestep_address)
 void* Receive_Thread_Run(void *sockfd_address)
 {
     pthread_mutex_lock(&start_mutex);
+    threadsRunning++;
     pthread_cond_signal(&start_cond);
     pthread_mutex_unlock(&start_mutex);
     int sockfd = *((int*) sockfd_address);
@@ -85,12 +88,18 @@ void UDPNAR_Start(char *ip, int port, long timestep)
     //Create reasoner thread and wait for its creation
     pthread_mutex_lock(&start_mutex);
     pthread_create(&thread_reasoner, NULL, Reasoner_Thread_Run, &timestep);
-    pthread_cond_wait(&start_cond, &start_mutex);
+    while(threadsRunning < 1)
+    {
+        pthread_cond_wait(&start_cond, &start_mutex);
+    }
     pthread_mutex_unlock(&start_mutex);
     //Create receive thread and wait for its creation
     pthread_mutex_lock(&start_mutex);
     pthread_create(&thread_receiver, NULL, Receive_Thread_Run, &receiver_sockfd);
-    pthread_cond_wait(&start_cond, &start_mutex);
+    while(threadsRunning < 2)
+    {
+        pthread_cond_wait(&start_cond, &start_mutex);
+    }
     pthread_mutex_unlock(&start_mutex);
     puts("//UDPNAR started!");
     fflush(stdout);
-- 
2.43.0


From 6322feda5dc253f961675bc4185b3a57d86ac578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:12 +0000
Subject: [PATCH 28/28] fix: a timestep of one second or more was refused by
 nanosleep, so the reasoner did not wait between its cycles

---
 src/NetworkNAR/UDPNAR.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NetworkNAR/UDPNAR.c b/src/NetworkNAR/UDPNAR.c
index f36f0d1..7bfa16c 100755
--- a/src/NetworkNAR/UDPNAR.c
+++ b/src/NetworkNAR/UDPNAR.c
@@ -45,7 +45,7 @@ void* Reasoner_Thread_Run(void* timestep_address)
         pthread_mutex_unlock(&nar_mutex);
         if(timestep >= 0)
         {
-            nanosleep((struct timespec[]){{0, timestep}}, NULL); //POSIX sleep for timestep nanoseconds
+            nanosleep((struct timespec[]){{timestep / 1000000000L, timestep % 1000000000L}}, NULL); //POSIX sleep for timestep nanoseconds
         }
     }
     return NULL;
-- 
2.43.0

