From c876175c49660b4231a94ba1d7e7d9f1c40d332d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:03 +0000
Subject: [PATCH 001/123] fix: forward reference initialization to the parts of
 interpolated measures

---
 src/include/travatar/eval-measure-adv-interp.h | 3 +++
 src/include/travatar/eval-measure-interp.h     | 3 +++
 src/lib/eval-measure-adv-interp.cc             | 6 ++++++
 src/lib/eval-measure-interp.cc                 | 6 ++++++
 4 files changed, 18 insertions(+)

diff --git a/src/include/travatar/eval-measure-adv-interp.h b/src/include/travatar/eval-measure-adv-interp.h
index 6b764bd..6f6013c 100644
--- a/src/include/travatar/eval-measure-adv-interp.h
+++ b/src/include/travatar/eval-measure-adv-interp.h
@@ -52,6 +52,9 @@ public:
     EvalMeasureAdvInterp(const std::string & str);
     virtual ~EvalMeasureAdvInterp() { }
 
+    // Initialize all the component measures with the references
+    virtual void InitializeWithReferences(const std::vector< std::vector<Sentence> > & refs);
+
     // Calculate the stats for a single sentence
     virtual boost::shared_ptr<EvalStats> CalculateStats(
                 const Sentence & ref,
diff --git a/src/include/travatar/eval-measure-interp.h b/src/include/travatar/eval-measure-interp.h
index 86139e2..d6bd130 100644
--- a/src/include/travatar/eval-measure-interp.h
+++ b/src/include/travatar/eval-measure-interp.h
@@ -52,6 +52,9 @@ public:
     EvalMeasureInterp(const std::string & str);
     virtual ~EvalMeasureInterp() { }
 
+    // Initialize all the component measures with the references
+    virtual void InitializeWithReferences(const std::vector< std::vector<Sentence> > & refs);
+
     // Calculate the stats for a single sentence
     virtual boost::shared_ptr<EvalStats> CalculateStats(
                 const Sentence & ref,
diff --git a/src/lib/eval-measure-adv-interp.cc b/src/lib/eval-measure-adv-interp.cc
index 272bc0d..10e6c9b 100644
--- a/src/lib/eval-measure-adv-interp.cc
+++ b/src/lib/eval-measure-adv-interp.cc
@@ -68,6 +68,12 @@ EvalStatsPtr EvalStatsAdvInterp::Clone() const {
     return EvalStatsPtr(new EvalStatsAdvInterp(newstats, vars_, query_));
 }
 
+void EvalMeasureAdvInterp::InitializeWithReferences(const std::vector< std::vector<Sentence> > & refs) {
+    typedef boost::shared_ptr<EvalMeasure> EvalMeasPtr;
+    BOOST_FOREACH(const EvalMeasPtr & meas, measures_)
+        meas->InitializeWithReferences(refs);
+}
+
 // Measure the score of the sys output according to the ref
 EvalStatsPtr EvalMeasureAdvInterp::CalculateStats(const Sentence & ref, const Sentence & sys) const {
     // Calculate all the stats independently and add them
diff --git a/src/lib/eval-measure-interp.cc b/src/lib/eval-measure-interp.cc
index 5087c82..c73faa1 100644
--- a/src/lib/eval-measure-interp.cc
+++ b/src/lib/eval-measure-interp.cc
@@ -68,6 +68,12 @@ EvalStatsPtr EvalStatsInterp::Clone() const {
     return EvalStatsPtr(new EvalStatsInterp(newstats, coeffs_));
 }
 
+void EvalMeasureInterp::InitializeWithReferences(const std::vector< std::vector<Sentence> > & refs) {
+    typedef boost::shared_ptr<EvalMeasure> EvalMeasPtr;
+    BOOST_FOREACH(const EvalMeasPtr & meas, measures_)
+        meas->InitializeWithReferences(refs);
+}
+
 // Measure the score of the sys output according to the ref
 EvalStatsPtr EvalMeasureInterp::CalculateStats(const Sentence & ref, const Sentence & sys) const {
     // Calculate all the stats independently and add them
-- 
2.43.0


From a90821aeafc837e66d4e3c00f118cb8624bc1cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:03 +0000
Subject: [PATCH 002/123] fix: weighted addition of interpolated statistics was
 silently ignored

---
 src/include/travatar/eval-measure-adv-interp.h | 1 +
 src/include/travatar/eval-measure-interp.h     | 1 +
 src/lib/eval-measure-adv-interp.cc             | 8 ++++++++
 src/lib/eval-measure-interp.cc                 | 8 ++++++++
 4 files changed, 18 insertions(+)

diff --git a/src/include/travatar/eval-measure-adv-interp.h b/src/include/travatar/eval-measure-adv-interp.h
index 6f6013c..9b7f4e5 100644
--- a/src/include/travatar/eval-measure-adv-interp.h
+++ b/src/include/travatar/eval-measure-adv-interp.h
@@ -28,6 +28,7 @@ public:
     // Check if the value is zero
     virtual bool IsZero();
     virtual EvalStats & PlusEquals(const EvalStats & rhs);
+    virtual EvalStats & PlusEqualsTimes(const EvalStats & rhs, Real p);
     virtual EvalStats & TimesEquals(EvalStatsDataType mult);
     virtual bool Equals(const EvalStats & rhs) const;
 
diff --git a/src/include/travatar/eval-measure-interp.h b/src/include/travatar/eval-measure-interp.h
index d6bd130..f5d0458 100644
--- a/src/include/travatar/eval-measure-interp.h
+++ b/src/include/travatar/eval-measure-interp.h
@@ -29,6 +29,7 @@ public:
     // Check if the value is zero
     virtual bool IsZero();
     virtual EvalStats & PlusEquals(const EvalStats & rhs);
+    virtual EvalStats & PlusEqualsTimes(const EvalStats & rhs, Real p);
     virtual EvalStats & TimesEquals(EvalStatsDataType mult);
     virtual bool Equals(const EvalStats & rhs) const;
 
diff --git a/src/lib/eval-measure-adv-interp.cc b/src/lib/eval-measure-adv-interp.cc
index 10e6c9b..58fad0c 100644
--- a/src/lib/eval-measure-adv-interp.cc
+++ b/src/lib/eval-measure-adv-interp.cc
@@ -46,6 +46,14 @@ EvalStats & EvalStatsAdvInterp::PlusEquals(const EvalStats & rhs) {
         stats_[i]->PlusEquals(*rhsi.stats_[i]);
     return *this;
 }
+EvalStats & EvalStatsAdvInterp::PlusEqualsTimes(const EvalStats & rhs, Real p) {
+    const EvalStatsAdvInterp & rhsi = (const EvalStatsAdvInterp &)rhs;
+    if(stats_.size() != rhsi.stats_.size())
+        THROW_ERROR("Interpreted eval measure sizes don't match");
+    for(int i = 0; i < (int)stats_.size(); i++)
+        stats_[i]->PlusEqualsTimes(*rhsi.stats_[i], p);
+    return *this;
+}
 EvalStats & EvalStatsAdvInterp::TimesEquals(EvalStatsDataType mult) {
     for(int i = 0; i < (int)stats_.size(); i++)
         stats_[i]->TimesEquals(mult);
diff --git a/src/lib/eval-measure-interp.cc b/src/lib/eval-measure-interp.cc
index c73faa1..8508e44 100644
--- a/src/lib/eval-measure-interp.cc
+++ b/src/lib/eval-measure-interp.cc
@@ -46,6 +46,14 @@ EvalStats & EvalStatsInterp::PlusEquals(const EvalStats & rhs) {
         stats_[i]->PlusEquals(*rhsi.stats_[i]);
     return *this;
 }
+EvalStats & EvalStatsInterp::PlusEqualsTimes(const EvalStats & rhs, Real p) {
+    const EvalStatsInterp & rhsi = (const EvalStatsInterp &)rhs;
+    if(stats_.size() != rhsi.stats_.size())
+        THROW_ERROR("Interpreted eval measure sizes don't match");
+    for(int i = 0; i < (int)stats_.size(); i++)
+        stats_[i]->PlusEqualsTimes(*rhsi.stats_[i], p);
+    return *this;
+}
 EvalStats & EvalStatsInterp::TimesEquals(EvalStatsDataType mult) {
     for(int i = 0; i < (int)stats_.size(); i++)
         stats_[i]->TimesEquals(mult);
-- 
2.43.0


From 85e9c92cd2e688f1d37829f98afea8553d3a7a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:03 +0000
Subject: [PATCH 003/123] fix: NIST was NaN when the hypothesis or reference is
 shorter than the n-gram order

---
 src/lib/eval-measure-nist.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/eval-measure-nist.cc b/src/lib/eval-measure-nist.cc
index 5b56928..338a3de 100644
--- a/src/lib/eval-measure-nist.cc
+++ b/src/lib/eval-measure-nist.cc
@@ -98,7 +98,7 @@ NistReport EvalStatsNist::CalcNistReport() const {
     // Calculate the precision for each order
     report.nist = 0.0;
     for (int i=0; i < ngram_order; i++) {
-        Real score = vals_[2*i]/vals_[2*i+1];
+        Real score = (vals_[2*i+1] ? vals_[2*i]/vals_[2*i+1] : 0);
         report.scores.push_back(score);
         report.nist += score;
     }
@@ -108,7 +108,7 @@ NistReport EvalStatsNist::CalcNistReport() const {
     report.ref_len = *vals_.rbegin();
     // Calculate the brevity penalty
     report.ratio = (Real)report.sys_len/report.ref_len;
-    if(report.ratio >= 1.0) {
+    if(report.ratio >= 1.0 || report.ref_len == 0) {
       report.brevity = 1.0;
     } else if(report.ratio <= 0.0) {
       report.brevity = 0.0;
-- 
2.43.0


From 5f10663efbd2d766bdd243d26e38402f1488078e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:03 +0000
Subject: [PATCH 004/123] fix: BLEU of a perfect match was refused when
 rounding put it just over one

---
 src/lib/eval-measure-bleu.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/eval-measure-bleu.cc b/src/lib/eval-measure-bleu.cc
index c0716d9..bcd3ca4 100644
--- a/src/lib/eval-measure-bleu.cc
+++ b/src/lib/eval-measure-bleu.cc
@@ -114,6 +114,8 @@ BleuReport EvalStatsBleu::CalcBleuReport() const {
         Real ref = (vals_[3*i+2]+smooth);
         
         Real fmeas = (sys == 0 ? 0 : mat / (prec_weight_ * sys + (1-prec_weight_) * ref));
+        // Rounding must not push a perfect match over one
+        if(fmeas > 1.0) fmeas = 1.0;
         // To support PINC
         if (inverse_)
             fmeas = 1.0 - fmeas;
-- 
2.43.0


From 22a32823d520039ac2dc5f99d68b810072e0c895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:03 +0000
Subject: [PATCH 005/123] fix: RIBES skipped the longest left context window

---
 src/lib/eval-measure-ribes.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/eval-measure-ribes.cc b/src/lib/eval-measure-ribes.cc
index ad8fd4e..c192f08 100644
--- a/src/lib/eval-measure-ribes.cc
+++ b/src/lib/eval-measure-ribes.cc
@@ -52,7 +52,7 @@ boost::shared_ptr<EvalStats> EvalMeasureRibes::CalculateStats(const Sentence & r
             // These vectors store all hypotheses that are still matching on the right or left
             vector<int> left_ref = ref_match, left_sys = sys_match,
                         right_ref = ref_match, right_sys = sys_match;
-            for(int window = 1; window < max(i, (int)sys.size()-i); window++) {
+            for(int window = 1; window < max(i+1, (int)sys.size()-i); window++) {
                 // Update the possible hypotheses on the left
                 if(window <= i) {
                     vector<int> new_left_ref, new_left_sys;
-- 
2.43.0


From 0fc0c24c4059c01106c01472b29cd9b4e89422aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:23 +0000
Subject: [PATCH 006/123] fix: mt-evaluator crashed on empty references and on
 bootstrapping a single sentence

---
 src/lib/mt-evaluator-runner.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/mt-evaluator-runner.cc b/src/lib/mt-evaluator-runner.cc
index 6658087..c9473d9 100644
--- a/src/lib/mt-evaluator-runner.cc
+++ b/src/lib/mt-evaluator-runner.cc
@@ -30,6 +30,7 @@ void MTEvaluatorRunner::Run(const ConfigMTEvaluatorRunner & config) {
     while(getline(refin, line))
         ref_sentences.push_back(Dict::ParseWordVector(line));
     int ref_len = ref_sentences.size();
+    if(ref_len == 0) THROW_ERROR("Reference file is empty: " << config.GetString("ref"));
     bool sent = config.GetBool("sent");
     
     // Load the evaluation measure
@@ -53,7 +54,7 @@ void MTEvaluatorRunner::Run(const ConfigMTEvaluatorRunner & config) {
         for(int i = 0; i < bootstrap; i++) {
             random_shuffle(ids.begin(), ids.end());
             PRINT_DEBUG("Set " << i << ":", 2);
-            for(int j = 0; j < ref_len/2; j++) {
+            for(int j = 0; j < max(ref_len/2, 1); j++) {
                 bootstrap_sets[ids[j]].push_back(i);
                 PRINT_DEBUG(" " << ids[j], 2);
             }
-- 
2.43.0


From 4bd58d35f8ce550d602f153dd89da63192294439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:30 +0000
Subject: [PATCH 007/123] fix: k-best lists contained the same derivation
 several times because of rounding

---
 src/include/travatar/hyper-graph.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/include/travatar/hyper-graph.h b/src/include/travatar/hyper-graph.h
index 600a7f4..1c5744a 100644
--- a/src/include/travatar/hyper-graph.h
+++ b/src/include/travatar/hyper-graph.h
@@ -338,7 +338,12 @@ public:
 
     typedef std::set<boost::shared_ptr<NbestStackItem>, StackScoreMore> NbestStateStack;
 
-    void PushStack(const boost::shared_ptr<NbestStackItem> & item) { stack.insert(item); }
+    // The same combination of children can be reached along several ways with
+    // scores that differ by rounding, so remember what was already pushed
+    void PushStack(const boost::shared_ptr<NbestStackItem> & item) {
+        if(pushed.insert(std::make_pair(item->edge_rank, item->child_ranks)).second)
+            stack.insert(item);
+    }
     boost::shared_ptr<NbestStackItem> PopStack() {
         NbestStateStack::iterator beg = stack.begin();
         boost::shared_ptr<NbestStackItem> ret = *beg;
@@ -348,6 +353,7 @@ public:
 
     std::vector<NbestEdge> edges;
     NbestStateStack stack;
+    std::set<std::pair<int, std::vector<int> > > pushed;
     std::vector<boost::shared_ptr<HyperPath> > paths;
     std::set<CfgDataVector> uniq_sents;
 
-- 
2.43.0


From 1942a93bb5e419c8e85c9793a1791bd6b4dc311b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:30 +0000
Subject: [PATCH 008/123] fix: nbest_uniq listed equal translations made by
 rules with different numbers of non-terminals

---
 src/lib/hyper-graph.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/hyper-graph.cc b/src/lib/hyper-graph.cc
index ba937f5..065a36c 100644
--- a/src/lib/hyper-graph.cc
+++ b/src/lib/hyper-graph.cc
@@ -343,6 +343,9 @@ boost::shared_ptr<HyperPath> HyperGraph::NbestGetNthPath(int node, int rank, boo
         // Check whether to add it or not
         if(uniq) {
             CfgDataVector trg = act_path->CalcTranslations();
+            // Only the words count, not the symbols of the rules they came from
+            BOOST_FOREACH(CfgData & data, trg)
+                data.syms.clear();
             if(state->uniq_sents.find(trg) == state->uniq_sents.end()) {
                 state->uniq_sents.insert(trg);
                 state->paths.push_back(act_path);
-- 
2.43.0


From ea5154752c766d825f4ef756c1a4d47db271cd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:05 +0000
Subject: [PATCH 009/123] fix: forest_nbest_trim was silently ignored

---
 src/lib/hyper-graph.cc     | 2 ++
 src/lib/travatar-runner.cc | 1 -
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/hyper-graph.cc b/src/lib/hyper-graph.cc
index 065a36c..35fd64e 100644
--- a/src/lib/hyper-graph.cc
+++ b/src/lib/hyper-graph.cc
@@ -370,6 +370,8 @@ boost::shared_ptr<HyperPath> HyperGraph::NbestGetNthPath(int node, int rank, boo
 vector<boost::shared_ptr<HyperPath> > HyperGraph::GetNbest(int n, bool uniq) {
     vector<boost::shared_ptr<NbestState> > states(nodes_.size());
     vector<boost::shared_ptr<HyperPath> > ret;
+    // An empty graph has no paths
+    if(nodes_.empty()) return ret;
     for(int i = 0; i < n; i++) {
         boost::shared_ptr<HyperPath> path = NbestGetNthPath(0, i, uniq, states);
         if(path.get() == NULL) break;
diff --git a/src/lib/travatar-runner.cc b/src/lib/travatar-runner.cc
index a5f49e5..dbe3a7b 100644
--- a/src/lib/travatar-runner.cc
+++ b/src/lib/travatar-runner.cc
@@ -361,7 +361,6 @@ void TravatarRunner::Run(const ConfigTravatarRunner & config) {
     }
 
     // Get the class to trim the forest if necessary
-    scoped_ptr<Trimmer> trimmer_;
     if(config.GetInt("forest_nbest_trim") != 0)
         trimmer_.reset(new TrimmerNbest(config.GetInt("forest_nbest_trim")));
 
-- 
2.43.0


From 51c0287a1bf3fa038bad42cc5763759d6d1e4d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:05 +0000
Subject: [PATCH 010/123] fix: nbest_tree dropped the top rule, crashed on
 single-rule derivations and mangled $ and \ in words

---
 src/lib/hyper-graph.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/lib/hyper-graph.cc b/src/lib/hyper-graph.cc
index 35fd64e..a5283c2 100644
--- a/src/lib/hyper-graph.cc
+++ b/src/lib/hyper-graph.cc
@@ -404,15 +404,18 @@ void HyperPath::Print(std::ostream & out) const {
 
 
 std::string HyperPath::GetTreeStr() const{
-    if ((int)edges_.size() < 1) return "";
+    // Edges added at the top by language models have no source string
+    int first = 0;
+    while (first < (int)edges_.size() && edges_[first]->GetSrcStr() == "") ++first;
+    if (first == (int)edges_.size()) return "";
 
-    string tree = edges_[1]->GetSrcStr();
-    boost::regex e ("\\bx[0-9]:(.*?) ");
+    string tree = edges_[first]->GetSrcStr();
+    boost::regex e ("\\bx[0-9]+:(.*?) ");
     boost::smatch m;
-    for(int i = 2; i < (int)edges_.size(); i++){
+    for(int i = first+1; i < (int)edges_.size(); i++){
        string nextTree = edges_[i]->GetSrcStr() + " ";
        if(boost::regex_search(tree, m, e) == true){
-           tree = boost::regex_replace(tree, e, nextTree, boost::format_first_only);
+           tree = boost::regex_replace(tree, e, nextTree, boost::format_first_only | boost::regex_constants::format_literal);
        }
     }
 
-- 
2.43.0


From 9546dcf0912f5eb1869c551024ad852449332c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:05 +0000
Subject: [PATCH 011/123] fix: decoder deleted the standard streams when asked
 to write n-best lists or traces to them

---
 src/lib/travatar-runner.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/lib/travatar-runner.cc b/src/lib/travatar-runner.cc
index dbe3a7b..f5a1ed8 100644
--- a/src/lib/travatar-runner.cc
+++ b/src/lib/travatar-runner.cc
@@ -174,6 +174,9 @@ void TravatarRunnerTask::Run() {
 }
 
 
+// Standard streams are used, but not owned
+static void DontDelete(ostream *) { }
+
 // Run the model
 void TravatarRunner::Run(const ConfigTravatarRunner & config) {
 
@@ -333,13 +336,13 @@ void TravatarRunner::Run(const ConfigTravatarRunner & config) {
     }
 
     // Open the n-best output stream if it exists
-    scoped_ptr<ostream> nbest_out;
+    boost::shared_ptr<ostream> nbest_out;
     scoped_ptr<OutputCollector> nbest_collector;
     if(config.GetString("nbest_out") != "") {
         if (config.GetString("nbest_out") == "STDOUT") {
-            nbest_out.reset(&cout);
+            nbest_out.reset(&cout, DontDelete);
         } else if (config.GetString("nbest_out") == "STDERR") {
-            nbest_out.reset(&cerr);
+            nbest_out.reset(&cerr, DontDelete);
         } else {
             nbest_out.reset(new ofstream(config.GetString("nbest_out").c_str()));
         }
@@ -365,13 +368,13 @@ void TravatarRunner::Run(const ConfigTravatarRunner & config) {
         trimmer_.reset(new TrimmerNbest(config.GetInt("forest_nbest_trim")));
 
     // Open the trace output stream if it exists
-    scoped_ptr<ostream> trace_out;
+    boost::shared_ptr<ostream> trace_out;
     scoped_ptr<OutputCollector> trace_collector;
     if(config.GetString("trace_out") != "") {
         if (config.GetString("trace_out") == "STDOUT") {
-            trace_out.reset(&cout);
+            trace_out.reset(&cout, DontDelete);
         } else if (config.GetString("trace_out") == "STDERR") {
-            trace_out.reset(&cerr);
+            trace_out.reset(&cerr, DontDelete);
         } else {
             trace_out.reset(new ofstream(config.GetString("trace_out").c_str()));
         }
-- 
2.43.0


From 5ce2642fa1119c99f42dc019696be529f21a6bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:28 +0000
Subject: [PATCH 012/123] fix: target-aware rule lookup used children before
 they were built in unary chains of forests and in nodes with both words and
 phrases below

---
 src/include/travatar/lookup-table.h |   9 ---
 src/lib/lookup-table.cc             | 109 +++++++++++-----------------
 2 files changed, 44 insertions(+), 74 deletions(-)

diff --git a/src/include/travatar/lookup-table.h b/src/include/travatar/lookup-table.h
index 623df4b..be69536 100644
--- a/src/include/travatar/lookup-table.h
+++ b/src/include/travatar/lookup-table.h
@@ -37,15 +37,6 @@ protected:
     std::string curr_string_;
 };
 
-typedef std::pair<std::vector<boost::shared_ptr<LookupState> >, const HyperNode*> SpannedState;
-
-// Class to compare State, basically comparison is based on the span length.
-// The shorter comes first.
-class SpannedStateComparator {
-public:
-    bool operator() (const SpannedState& lhs, const SpannedState& rhs) const;
-};
-
 // An implementation of a GraphTransformer that takes as input
 // a parse forest of the original sentence, looks up rules, and
 // outputs a rule graph in the target language
diff --git a/src/lib/lookup-table.cc b/src/lib/lookup-table.cc
index 4342e38..9cad9c9 100644
--- a/src/lib/lookup-table.cc
+++ b/src/lib/lookup-table.cc
@@ -5,7 +5,7 @@
 #include <travatar/hyper-graph.h>
 #include <travatar/global-debug.h>
 #include <boost/foreach.hpp>
-#include <queue>
+#include <set>
 
 using namespace travatar;
 using namespace boost;
@@ -137,6 +137,16 @@ HyperGraph * LookupTable::TransformGraphSrc(const HyperGraph & parse) const {
     return ret;
 }
 
+// List the non-terminals of a parse so that every node comes after its children
+// (spans and IDs alone do not tell the order of the nodes in unary chains)
+static void AddChildrenFirst(const HyperNode & node, set<int> & done, vector<const HyperNode*> & order) {
+    if(node.IsTerminal() || !done.insert(node.GetId()).second) return;
+    BOOST_FOREACH(const HyperEdge * edge, node.GetEdges())
+        BOOST_FOREACH(const HyperNode * tail, edge->GetTails())
+            AddChildrenFirst(*tail, done, order);
+    order.push_back(&node);
+}
+
 HyperGraph * LookupTable::TransformGraphSrcTrg(const HyperGraph & parse) const {
     typedef map<vector<WordId>, HyperNode*> TargetMap;
     typedef map<int, TargetMap> NodeMap;
@@ -146,26 +156,22 @@ HyperGraph * LookupTable::TransformGraphSrcTrg(const HyperGraph & parse) const {
     HyperGraph * ret = new HyperGraph;
     ret->SetWords(parse.GetWords());
     
-    priority_queue<SpannedState,vector<SpannedState>,SpannedStateComparator> lookups;
+    set<int> ordered;
+    vector<const HyperNode*> order;
     vector<boost::shared_ptr<LookupState> > init_state;
     init_state.push_back(boost::shared_ptr<LookupState>(GetInitialState()));
     BOOST_REVERSE_FOREACH(const HyperNode * node, parse.GetNodes()) {
-        if(!node->IsTerminal()) {
-            lookups.push(make_pair(LookupSrc(*node, init_state),node));
-        } 
+        AddChildrenFirst(*node, ordered, order);
     }
 
     NodeMap node_map;
     GeneralMap general_map;
-    // Starting from the shorter span (construct the hypergraph from bottom to top)
-    while (!lookups.empty()) {
-        // Next State
-        const SpannedState spanned_state = lookups.top();
-        lookups.pop();
-        const HyperNode* input_node = spanned_state.second;
+    // Construct the hypergraph from bottom to top
+    BOOST_FOREACH (const HyperNode* input_node, order) {
+        const vector<boost::shared_ptr<LookupState> > states = LookupSrc(*input_node, init_state);
         // Expand This state
         TargetMap indexed_head;
-        BOOST_FOREACH (const boost::shared_ptr<LookupState> & state, spanned_state.first) {
+        BOOST_FOREACH (const boost::shared_ptr<LookupState> & state, states) {
             std::vector<const HyperNode*> non_terms = state->GetNonterms();
             BOOST_FOREACH (const TranslationRule * rule, *FindRules(*state)) {
                 CfgDataVector trg_data = rule->GetTrgData();
@@ -177,7 +183,8 @@ HyperGraph * LookupTable::TransformGraphSrcTrg(const HyperGraph & parse) const {
                 // whether there exists this head before
                 TargetMap::const_iterator it = indexed_head.find(heads);
                 HyperNode * head_node; 
-                if (it == indexed_head.end()) {
+                bool new_head = (it == indexed_head.end());
+                if (new_head) {
                     head_node = new HyperNode();
                     head_node->SetSym(input_node->GetSym());
                     head_node->SetSpan(input_node->GetSpan());
@@ -224,7 +231,7 @@ HyperGraph * LookupTable::TransformGraphSrcTrg(const HyperGraph & parse) const {
                 } else {
                     // this rule can't be applied, delete the component immediately
                     delete next_edge;
-                    delete head_node;
+                    if (new_head) delete head_node;
                 }
             } // for rule
         } // for state
@@ -251,42 +258,31 @@ HyperGraph * LookupTable::TransformGraphSrcTrg(const HyperGraph & parse) const {
         // it we match all unk, connect the parse state regardlessly
         if (indexed_head.size() == (size_t) 0 || match_all_unk_) {
             // Adding the tail to other parse state
-            if (input_node->IsPreTerminal()) {
-                // Translating the node to itself
-                HyperEdge* idem = new HyperEdge(parse_node);
-                WordId word = parse.GetWord(input_node->GetSpan().first);
+            BOOST_FOREACH(HyperEdge* edge, input_node->GetEdges()) {
+                HyperEdge * parse_edge = new HyperEdge(parse_node);
                 ostringstream oss;
-                if (save_src_str_) oss << Dict::WSym(input_node->GetSym()) << " ( \"" << Dict::WSym(word) << "\" )";
-                vector<WordId> trg_words(1, word);
-                CfgDataVector trg_data(GlobalVars::trg_factors, trg_words);
-                idem->SetRule(GetUnknownRule(), input_node->GetEdge(0)->GetFeatures());
-                idem->SetTrgData(trg_data);
-                if (save_src_str_) idem->SetSrcStr(oss.str());
-                parse_node->AddEdge(idem);
-                ret->AddEdge(idem);
-            } else {
-                BOOST_FOREACH(HyperEdge* edge, input_node->GetEdges()) {
-                    HyperEdge * parse_edge = new HyperEdge(parse_node);
-                    ostringstream oss;
-                    if (save_src_str_) oss << Dict::WSym(input_node->GetSym()) << " ("; 
-                    vector<WordId> trg(edge->GetTails().size());
-                    for (size_t i=0; i < trg.size(); ++i) {
-                        if(save_src_str_) oss << " x" << i << ':' << Dict::WSym(edge->GetTail(i)->GetSym()); 
-                        trg[i] = -1 - i;
-                    }
-                    parse_edge->SetRule(GetUnknownRule(), edge->GetFeatures());
-                    parse_edge->SetTrgData(CfgDataVector(GlobalVars::trg_factors,trg));
-                    BOOST_FOREACH(HyperNode* tail, edge->GetTails()) {
-                        HyperNode* child = general_map.find(tail->GetId())->second;
-                        parse_edge->AddTail(child);
-                    }
-                    if (save_src_str_) {
-                        oss << " )";
-                        parse_edge->SetSrcStr(oss.str());
-                    }
-                    parse_node->AddEdge(parse_edge);
-                    ret->AddEdge(parse_edge);
+                if (save_src_str_) oss << Dict::WSym(input_node->GetSym()) << " ("; 
+                vector<WordId> trg;
+                BOOST_FOREACH(HyperNode* tail, edge->GetTails()) {
+                    if (tail->IsTerminal()) continue;
+                    if (save_src_str_) oss << " x" << trg.size() << ':' << Dict::WSym(tail->GetSym()); 
+                    trg.push_back(-1 - (int)trg.size());
+                    parse_edge->AddTail(general_map.find(tail->GetId())->second);
                 }
+                if (trg.size() == 0) {
+                    // Translating the node to itself
+                    WordId word = parse.GetWord(input_node->GetSpan().first);
+                    if (save_src_str_) oss << " \"" << Dict::WSym(word) << "\"";
+                    trg.push_back(word);
+                }
+                parse_edge->SetRule(GetUnknownRule(), edge->GetFeatures());
+                parse_edge->SetTrgData(CfgDataVector(GlobalVars::trg_factors,trg));
+                if (save_src_str_) {
+                    oss << " )";
+                    parse_edge->SetSrcStr(oss.str());
+                }
+                parse_node->AddEdge(parse_edge);
+                ret->AddEdge(parse_edge);
             }
         }
         general_map.insert(make_pair(input_node->GetId(), parse_node));
@@ -305,20 +301,3 @@ HyperGraph * LookupTable::TransformGraphSrcTrg(const HyperGraph & parse) const {
 
 
 const TranslationRule * LookupTable::GetUnknownRule() const { return &unk_rule_; }
-
-bool SpannedStateComparator::operator() (const SpannedState& lhs, const SpannedState& rhs) const {
-    pair<int,int> p1 = lhs.second->GetSpan();
-    pair<int,int> p2 = rhs.second->GetSpan();
-    int result = (p1.second - p1.first) - (p2.second - p2.first);
-    if (result == 0) {
-        result = (p1.second - p2.second);
-        if (result == 0) {
-            int node1 = lhs.second->GetId();
-            int node2 = rhs.second->GetId();
-            result = (node1 - node2) < 0;
-        } else {
-            result = result > 0;
-        }
-    }
-    return result > 0;
-}
-- 
2.43.0


From 56f62c09179d6106b8bd3b79143316b0f70e35b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:27 +0000
Subject: [PATCH 013/123] fix: indirect unary cycles in a grammar were not
 diagnosed and made decoding recurse forever

---
 src/lib/rule-fsm.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rule-fsm.cc b/src/lib/rule-fsm.cc
index 69afd1a..5e5591b 100644
--- a/src/lib/rule-fsm.cc
+++ b/src/lib/rule-fsm.cc
@@ -64,7 +64,7 @@ RuleFSM * RuleFSM::ReadFromRuleTable(istream & in) {
                 UnaryMap::iterator it = unaries.find(target);
                 if(it != unaries.end()) {
                     BOOST_FOREACH(const HieroHeadLabels & second_trg, it->second) {
-                        set<HieroHeadLabels>::iterator it2 = val.second.find(target);
+                        set<HieroHeadLabels>::iterator it2 = val.second.find(second_trg);
                         if(it2 == val.second.end()) {
                             added = true;
                             val.second.insert(second_trg);
-- 
2.43.0


From 02ec300a5f4787931aaa377d1862152b77fbc6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:43 +0000
Subject: [PATCH 014/123] fix: rules with a missing or undeclared non-terminal
 were read past the end of their symbol lists

---
 src/lib/rule-fsm.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/rule-fsm.cc b/src/lib/rule-fsm.cc
index 5e5591b..fdd23c3 100644
--- a/src/lib/rule-fsm.cc
+++ b/src/lib/rule-fsm.cc
@@ -32,8 +32,6 @@ RuleFSM * RuleFSM::ReadFromRuleTable(istream & in) {
             Dict::ParseSparseVector(columns[2]),
             src_data
         );
-        if(src_data.syms.size() == 1 && src_data.words.size() == 1)
-            unaries[rule->GetChildHeadLabels(0)].insert(rule->GetHeadLabels());
         // Sanity check
         BOOST_FOREACH(const CfgData & trg_data, rule->GetTrgData())
             if(trg_data.syms.size() != src_data.syms.size())
@@ -41,8 +39,10 @@ RuleFSM * RuleFSM::ReadFromRuleTable(istream & in) {
         if(src_data.words.size() == 0)
             THROW_ERROR("Empty sources in a rule are not allowed: " << endl << line);
         BOOST_FOREACH(WordId srcid, src_data.words)
-            if(-1 - srcid > (int)src_data.syms.size())
+            if(-1 - srcid >= (int)src_data.syms.size())
                 THROW_ERROR("Non-terminal ID is larger than number of symbols: " << endl << line);
+        if(src_data.syms.size() == 1 && src_data.words.size() == 1)
+            unaries[rule->GetChildHeadLabels(0)].insert(rule->GetHeadLabels());
 
         string key_str = CreateKey(src_data, trg_data);
         rules[key_str].push_back(rule);
-- 
2.43.0


From 0d620860fe6d5de676fe31a5e557da1c6406e170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:26 +0000
Subject: [PATCH 015/123] fix: empty translations shared a language model state
 with words that do not extend to the left

---
 src/kenlm/lm/state.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kenlm/lm/state.hh b/src/kenlm/lm/state.hh
index f6c51d6..4891c29 100644
--- a/src/kenlm/lm/state.hh
+++ b/src/kenlm/lm/state.hh
@@ -57,13 +57,14 @@ struct Left {
   bool operator==(const Left &other) const {
     return 
       length == other.length &&
-      (!length || (pointers[length - 1] == other.pointers[length - 1] && full == other.full));
+      full == other.full && (!length || pointers[length - 1] == other.pointers[length - 1]);
   }
 
   int Compare(const Left &other) const {
     if (length < other.length) return -1;
     if (length > other.length) return 1;
-    if (length == 0) return 0; // Must be full.
+    // No words at all are not full, words that do not extend to the left are
+    if (length == 0) return (int)full - (int)other.full;
     if (pointers[length - 1] > other.pointers[length - 1]) return 1;
     if (pointers[length - 1] < other.pointers[length - 1]) return -1;
     return (int)full - (int)other.full;
-- 
2.43.0


From dc8ad3f98fbffc308b90be88cfcc4142cb013ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:26 +0000
Subject: [PATCH 016/123] fix: incremental language model search mixed up the
 children of rules that permute three or more non-terminals

---
 src/lib/lm-composer-incremental.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/lib/lm-composer-incremental.cc b/src/lib/lm-composer-incremental.cc
index 1082c19..5e9d8ed 100644
--- a/src/lib/lm-composer-incremental.cc
+++ b/src/lib/lm-composer-incremental.cc
@@ -12,6 +12,7 @@
 #include <search/edge_generator.hh>
 #include <vector>
 #include <queue>
+#include <algorithm>
 #include <map>
 
 using namespace travatar;
@@ -46,8 +47,9 @@ NBestComplete Forest::Complete(std::vector<PartialEdge> &partial) {
             best = add;
         old_edge = (HyperEdge*)add.GetNote().vp;
         Real edge_score = add.GetScore();
-        // Add the new tails in *source* order 
+        // Add the new tails in *source* order (the partial edge has them in target order)
         vector<HyperNode*> tails;
+        int nt_pos = 0;
         Sentence wids;
         vector<WordId> node_id;
         if(old_edge) {
@@ -61,14 +63,17 @@ NBestComplete Forest::Complete(std::vector<PartialEdge> &partial) {
         BOOST_FOREACH(WordId wid, wids) {
             if(wid < 0) {
                 int tid = -1-wid;
-                const PartialVertex & part = add.NT()[tid];
+                const PartialVertex & part = add.NT()[nt_pos++];
                 HyperNode* child = (HyperNode*)part.End();
-                tails.push_back(child);
+                if(tid >= (int)tails.size()) tails.resize(tid+1, NULL);
+                tails[tid] = child;
                 edge_score -= child->GetViterbiScore();
                 // Keep track of the node ID
                 node_id[tid] = child->GetId();
             }
         }
+        if(find(tails.begin(), tails.end(), (HyperNode*)NULL) != tails.end())
+            THROW_ERROR("Incremental search cannot be used with rules that delete a non-terminal before one that they keep");
         // Skip duplicate edges
         if(node_memo.find(node_id) != node_memo.end())
             continue;
-- 
2.43.0


From 4084218e827b2ac211503809d73c58b98aa08826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:04 +0000
Subject: [PATCH 017/123] fix: final edge of the incremental language model
 search was queued before it had a score

---
 src/lib/lm-composer-incremental.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lib/lm-composer-incremental.cc b/src/lib/lm-composer-incremental.cc
index 5e9d8ed..d4ab878 100644
--- a/src/lib/lm-composer-incremental.cc
+++ b/src/lib/lm-composer-incremental.cc
@@ -217,7 +217,6 @@ search::Vertex* LMComposerIncremental::CalculateRootVertex(
     search::Note note;
     note.vp = NULL;
     pedge.SetNote(note);
-    edges.AddEdge(pedge);
     // Perform scoring and add the edge
     search::ScoreRuleRet score = search::ScoreRule(*static_cast<LMType*>(data->GetLM()), words, pedge.Between());
     pedge.SetScore(below_score + data->GetWeight() * score.prob + data->GetUnkWeight() * score.oov);
-- 
2.43.0


From b8666022777f1dd6b314d6624de70095e5ad1362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:25 +0000
Subject: [PATCH 018/123] fix: incremental search merged different language
 model states whose hashes collide

---
 src/kenlm/search/vertex_generator.hh | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/kenlm/search/vertex_generator.hh b/src/kenlm/search/vertex_generator.hh
index 9100001..3d9758b 100644
--- a/src/kenlm/search/vertex_generator.hh
+++ b/src/kenlm/search/vertex_generator.hh
@@ -1,18 +1,13 @@
 #ifndef SEARCH_VERTEX_GENERATOR__
 #define SEARCH_VERTEX_GENERATOR__
 
+#include "lm/state.hh"
 #include "search/edge.hh"
 #include "search/types.hh"
 #include "search/vertex.hh"
 
 #include <boost/unordered_map.hpp>
 
-namespace lm {
-namespace ngram {
-class ChartState;
-} // namespace ngram
-} // namespace lm
-
 namespace search {
 
 class ContextBase;
@@ -23,7 +18,7 @@ template <class Output> class VertexGenerator {
     VertexGenerator(ContextBase &context, Vertex &gen, Output &nbest) : context_(context), gen_(gen), nbest_(nbest) {}
 
     void NewHypothesis(PartialEdge partial) {
-      nbest_.Add(existing_[hash_value(partial.CompletedState())], partial);
+      nbest_.Add(existing_[partial.CompletedState()], partial);
     }
 
     void FinishedSearch() {
@@ -42,7 +37,8 @@ template <class Output> class VertexGenerator {
 
     Vertex &gen_;
 
-    typedef boost::unordered_map<uint64_t, typename Output::Combine> Existing;
+    // By the state itself: hashes of different states can collide
+    typedef boost::unordered_map<lm::ngram::ChartState, typename Output::Combine> Existing;
     Existing existing_;
 
     Output &nbest_;
-- 
2.43.0


From 9acadd89f7f4584951537c8ba5ea011efbb95c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:04 +0000
Subject: [PATCH 019/123] fix: chart decoder left the edges and nodes it
 searches over unscored

---
 src/lib/lookup-table-cfglm.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/lookup-table-cfglm.cc b/src/lib/lookup-table-cfglm.cc
index ac9cedb..30c1e48 100644
--- a/src/lib/lookup-table-cfglm.cc
+++ b/src/lib/lookup-table-cfglm.cc
@@ -63,7 +63,7 @@ const CFGChartItem::StatefulNode & CFGChartItem::GetStatefulNode(const HieroHead
 class StatefulNodeScoresMore {
 public:
     bool operator()(const CFGChartItem::StatefulNode* x, const CFGChartItem::StatefulNode* y) {
-        return x->first->GetViterbiScore() > y->first->GetViterbiScore();
+        return x->first->CalcViterbiScore() > y->first->CalcViterbiScore();
     }
 };
 
@@ -254,6 +254,7 @@ void LookupTableCFGLM::CubePrune(int N, int i, int j, vector<CFGCollection> & co
                 lm_features.push_back(make_pair(data->GetUnkFeatureName(), lm_scores.second));
         }
         next_edge->GetFeatures() += SparseVector(lm_features);
+        next_edge->SetScore(weights_->GetCurrent() * rule->GetFeatures() + total_score);
         // Add the hypothesis to the hypergraph
         RecombIndex ridx = make_pair(rule->GetHeadLabels(), my_state);
         RecombMap::iterator rit = recomb_map.find(ridx);
@@ -261,6 +262,7 @@ void LookupTableCFGLM::CubePrune(int N, int i, int j, vector<CFGCollection> & co
         if(rit != recomb_map.end()) {
             rit->second->AddEdge(next_edge);
             next_edge->SetHead(rit->second);
+            rit->second->SetViterbiScore(-REAL_MAX);
         } else {
             HyperNode * node = new HyperNode;
             node->SetSpan(make_pair(i, j+1));
-- 
2.43.0


From 39f5c893edfe316b593c57ace69950073a73913d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:04 +0000
Subject: [PATCH 020/123] fix: chart decoder applied unary rules only to the
 first of the nodes with the same label

---
 src/lib/lookup-table-cfglm.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/lookup-table-cfglm.cc b/src/lib/lookup-table-cfglm.cc
index 30c1e48..86d7b56 100644
--- a/src/lib/lookup-table-cfglm.cc
+++ b/src/lib/lookup-table-cfglm.cc
@@ -258,6 +258,7 @@ void LookupTableCFGLM::CubePrune(int N, int i, int j, vector<CFGCollection> & co
         // Add the hypothesis to the hypergraph
         RecombIndex ridx = make_pair(rule->GetHeadLabels(), my_state);
         RecombMap::iterator rit = recomb_map.find(ridx);
+        bool new_node = (rit == recomb_map.end());
         ret.AddEdge(next_edge);
         if(rit != recomb_map.end()) {
             rit->second->AddEdge(next_edge);
@@ -284,9 +285,10 @@ void LookupTableCFGLM::CubePrune(int N, int i, int j, vector<CFGCollection> & co
         }
         // If unary rules exist
         UnaryIds::const_iterator uit = unary_ids_.find(rule->GetHeadLabels());
-        if(uit != unary_ids_.end()) {
+        if(new_node && uit != unary_ids_.end()) {
             BOOST_FOREACH(int urid, uit->second) {
-                vector<int> pos(2); pos[0] = -1-urid; pos[1] = 0;
+                // Use the node that was just added, others have had their turn
+                vector<int> pos(2); pos[0] = -1-urid; pos[1] = chart[id].GetNodes()[rule->GetHeadLabels()].size()-1;
                 // TODO: Recalculating the features for unary rules every time is extremely wasteful. Do something.
                 Real my_score = top_score + weights_->GetCurrent() * unary_rules_[urid]->GetFeatures();
                 hypo_queue.push(make_pair(my_score, pos));
-- 
2.43.0


From a1497da5a4e3d0f1cedcd1561dd54c01e833e3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:27 +0000
Subject: [PATCH 021/123] fix: chart decoder built nothing when the chart limit
 was off

---
 src/lib/lookup-table-cfglm.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/lookup-table-cfglm.cc b/src/lib/lookup-table-cfglm.cc
index 86d7b56..f0bf6b8 100644
--- a/src/lib/lookup-table-cfglm.cc
+++ b/src/lib/lookup-table-cfglm.cc
@@ -205,7 +205,7 @@ void LookupTableCFGLM::CubePrune(int N, int i, int j, vector<CFGCollection> & co
     // Go through the priority queue
     for(int num_popped = 0; hypo_queue.size() != 0 && 
                             (pop_limit_ < 0 || num_popped < pop_limit_) &&
-                            (chart_limit_ < 0 || (int)recomb_map.size() < chart_limit_); num_popped++) {
+                            (chart_limit_ <= 0 || (int)recomb_map.size() < chart_limit_); num_popped++) {
         // Pop the top hypothesis
         Real top_score = hypo_queue.top().first;
         vector<int> id_str = hypo_queue.top().second;
-- 
2.43.0


From 4d15db93bc5b8fbe39bb42bfa223403a56d0f94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:27 +0000
Subject: [PATCH 022/123] fix: chart decoder read outside its chart for empty
 sentences

---
 src/lib/lookup-table-cfglm.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/lookup-table-cfglm.cc b/src/lib/lookup-table-cfglm.cc
index f0bf6b8..73e978c 100644
--- a/src/lib/lookup-table-cfglm.cc
+++ b/src/lib/lookup-table-cfglm.cc
@@ -309,6 +309,7 @@ HyperGraph * LookupTableCFGLM::TransformGraph(const HyperGraph & graph) const {
        
     Sentence sent = graph.GetWords();
     int N = sent.size();
+    if(N == 0) { delete ret; return new HyperGraph; }
     vector<CFGChartItem> chart(N*N);
     vector<CFGCollection> collections(N*N);
     CFGPath root_path;
-- 
2.43.0


From 5512fade8826d4878599f79ace5ad9e7d101ac5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:27 +0000
Subject: [PATCH 023/123] fix: chart decoder ignored the language model weights

---
 src/include/travatar/lookup-table-cfglm.h |  2 +-
 src/lib/lookup-table-cfglm.cc             | 11 +++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/include/travatar/lookup-table-cfglm.h b/src/include/travatar/lookup-table-cfglm.h
index d9ed13c..c70b184 100644
--- a/src/include/travatar/lookup-table-cfglm.h
+++ b/src/include/travatar/lookup-table-cfglm.h
@@ -141,7 +141,7 @@ public:
     void SetPopLimit(int pop_limit) { pop_limit_ = pop_limit; }
     void SetChartLimit(int chart_limit) { chart_limit_ = chart_limit; }
     void SetTrgFactors(int trg_factors) { trg_factors_ = trg_factors; }
-    void SetWeights(const Weights & weights) { weights_ = &weights; }
+    void SetWeights(const Weights & weights);
     void SetRootSymbol(WordId symbol) { root_symbol_ = HieroHeadLabels(std::vector<WordId>(trg_factors_+1,symbol)); }
     void SetUnkSymbol(WordId symbol) { unk_symbol_ = HieroHeadLabels(std::vector<WordId>(trg_factors_+1,symbol)); }
     void AddRuleFSM(RuleFSM* fsm);
diff --git a/src/lib/lookup-table-cfglm.cc b/src/lib/lookup-table-cfglm.cc
index 73e978c..0dabf95 100644
--- a/src/lib/lookup-table-cfglm.cc
+++ b/src/lib/lookup-table-cfglm.cc
@@ -121,6 +121,17 @@ void LookupTableCFGLM::LoadLM(const std::string & filename) {
     funcs_.push_back(LMFunc::CreateFromType(lm_data_[lm_data_.size()-1]->GetType())); 
 }
 
+void LookupTableCFGLM::SetWeights(const Weights & weights) {
+    weights_ = &weights;
+    const SparseMap & current = weights.GetCurrent();
+    BOOST_FOREACH(LMData * data, lm_data_) {
+        SparseMap::const_iterator it1 = current.find(data->GetFeatureName());
+        data->SetWeight(it1 != current.end() ? it1->second : 0);
+        SparseMap::const_iterator it2 = current.find(data->GetUnkFeatureName());
+        data->SetUnkWeight(it2 != current.end() ? it2->second : 0);
+    }
+}
+
 bool LookupTableCFGLM::PredictiveSearch(marisa::Agent & agent) const {
     BOOST_FOREACH(const RuleFSM * fsm, rule_fsms_) {
         marisa::Agent tmp_agent; tmp_agent.set_query(agent.query().ptr(), agent.query().length());
-- 
2.43.0


From 75c2eb51f64e580db370b6f98d51822f6ab6d326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:13 +0000
Subject: [PATCH 024/123] fix: chart decoder could not pass unknown words
 through

---
 src/include/travatar/lookup-table-cfglm.h |  1 +
 src/lib/lookup-table-cfglm.cc             | 26 ++++++++++++++++++++++-
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/include/travatar/lookup-table-cfglm.h b/src/include/travatar/lookup-table-cfglm.h
index c70b184..9d13fb5 100644
--- a/src/include/travatar/lookup-table-cfglm.h
+++ b/src/include/travatar/lookup-table-cfglm.h
@@ -163,6 +163,7 @@ private:
     HieroHeadLabels empty_symbol_;
     const Weights * weights_;
 
+    bool HasHead(const RuleVec & rules, const HieroHeadLabels & label) const;
     void Consume(CFGPath & a, const Sentence & sent, int N, int i, int j, int k, std::vector<CFGChartItem> & chart, std::vector<CFGCollection> & collections) const;
     void AddToChart(CFGPath & a, const Sentence & sent, int N, int i, int j, bool u, std::vector<CFGChartItem> & chart, std::vector<CFGCollection> & collections) const;
     void CubePrune(int N, int i, int j, std::vector<CFGCollection> & collection, std::vector<CFGChartItem> & chart, HyperGraph & ret) const;
diff --git a/src/lib/lookup-table-cfglm.cc b/src/lib/lookup-table-cfglm.cc
index 0dabf95..75d7e95 100644
--- a/src/lib/lookup-table-cfglm.cc
+++ b/src/lib/lookup-table-cfglm.cc
@@ -4,6 +4,7 @@
 #include <travatar/string-util.h>
 #include <travatar/hyper-graph.h>
 #include <travatar/lookup-table-cfglm.h>
+#include <travatar/lookup-table-fsm.h>
 #include <travatar/sentence.h>
 #include <travatar/input-file-stream.h>
 #include <travatar/lm-func.h>
@@ -78,7 +79,7 @@ void CFGChartItem::FinalizeNodes() {
 LookupTableCFGLM::LookupTableCFGLM() : 
       pop_limit_(-1), chart_limit_(-1), trg_factors_(1),
       root_symbol_(HieroHeadLabels(vector<WordId>(GlobalVars::trg_factors+1,Dict::WID("S")))),
-      unk_symbol_(HieroHeadLabels(vector<WordId>(GlobalVars::trg_factors+1,Dict::WID("X")))),
+      unk_symbol_(HieroHeadLabels(vector<WordId>(GlobalVars::trg_factors+1,Dict::WID("")))),
       empty_symbol_(HieroHeadLabels(vector<WordId>(GlobalVars::trg_factors+1,Dict::WID("")))),
       weights_(new Weights) { }
 
@@ -313,6 +314,23 @@ void LookupTableCFGLM::CubePrune(int N, int i, int j, vector<CFGCollection> & co
 
 }
 
+// Whether the label can be built by one of the rules, or by unary rules on top of them
+bool LookupTableCFGLM::HasHead(const RuleVec & rules, const HieroHeadLabels & label) const {
+    vector<HieroHeadLabels> found;
+    BOOST_FOREACH(const TranslationRuleHiero * rule, rules)
+        found.push_back(rule->GetHeadLabels());
+    for(size_t i = 0; i < found.size(); i++) {
+        if(found[i] == label) return true;
+        UnaryIds::const_iterator it = unary_ids_.find(found[i]);
+        if(it != unary_ids_.end()) {
+            BOOST_FOREACH(int urid, it->second)
+                if(find(found.begin(), found.end(), unary_rules_[urid]->GetHeadLabels()) == found.end())
+                    found.push_back(unary_rules_[urid]->GetHeadLabels());
+        }
+    }
+    return false;
+}
+
 HyperGraph * LookupTableCFGLM::TransformGraph(const HyperGraph & graph) const {
 
     HyperGraph * ret = new HyperGraph;
@@ -324,6 +342,7 @@ HyperGraph * LookupTableCFGLM::TransformGraph(const HyperGraph & graph) const {
     vector<CFGChartItem> chart(N*N);
     vector<CFGCollection> collections(N*N);
     CFGPath root_path;
+    vector<boost::shared_ptr<TranslationRuleHiero> > unk_rules;
 
     // Add the root note
     HyperNode * root = new HyperNode;
@@ -348,6 +367,11 @@ HyperGraph * LookupTableCFGLM::TransformGraph(const HyperGraph & graph) const {
             } else {
                 Consume(root_path, sent, N, i, i, j-1, chart, collections);
             }
+            // Pass through words from which the unknown symbol cannot be built otherwise
+            if(i == j && unk_symbol_ != empty_symbol_ && !HasHead(collections[i*N+j].GetRules(), unk_symbol_)) {
+                unk_rules.push_back(boost::shared_ptr<TranslationRuleHiero>(LookupTableFSM::GetUnknownRule(sent[i], unk_symbol_)));
+                collections[i*N+j].AddRules(CFGPath(root_path, sent, i), RuleVec(1, unk_rules.back().get()));
+            }
             CubePrune(N, i, j, collections, chart, *ret);
         }
     }
-- 
2.43.0


From 85370bf8339d0d25ebb7bb8a5418342c7a68795b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:48 +0000
Subject: [PATCH 025/123] fix: compressed rule table lost rules whose source
 side appears in several places of the file

---
 src/lib/lookup-table-marisa.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/lookup-table-marisa.cc b/src/lib/lookup-table-marisa.cc
index 248406a..0763ee1 100644
--- a/src/lib/lookup-table-marisa.cc
+++ b/src/lib/lookup-table-marisa.cc
@@ -68,7 +68,9 @@ LookupTableMarisa * LookupTableMarisa::ReadFromRuleTable(std::istream & in) {
         agent.set_query(str.c_str());
         if(!ret->GetTrie().lookup(agent))
             THROW_ERROR("Internal error when building rule table @ " << str);
-        main_rules[agent.key().id()] = my_rules;
+        // The rules of one source side can be spread over the table
+        RuleVec & target = main_rules[agent.key().id()];
+        target.insert(target.end(), my_rules.begin(), my_rules.end());
     }
     return ret;
 }
-- 
2.43.0


From be01269d3bbab4d652a876cb371eabb12d138301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:29 +0000
Subject: [PATCH 026/123] fix: variables of extracted rules were numbered
 differently on the source and target side

---
 src/lib/forest-extractor.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lib/forest-extractor.cc b/src/lib/forest-extractor.cc
index d06175b..d48f8af 100644
--- a/src/lib/forest-extractor.cc
+++ b/src/lib/forest-extractor.cc
@@ -5,6 +5,7 @@
 #include <travatar/alignment.h>
 #include <travatar/global-debug.h>
 #include <travatar/dict.h>
+#include <algorithm>
 #include <queue>
 #include <stack>
 #include <list>
@@ -15,6 +16,11 @@ using namespace travatar;
 using namespace std;
 using namespace boost;
 
+// The order of nodes on the source side
+static bool SrcSpanLess(const HyperNode * x, const HyperNode * y) {
+    return x->GetSpan() < y->GetSpan();
+}
+
 // Create a rule graph using Mi and Huang's forest-based rule extraction algorithm
 //  "Forest-based Translation Rule Extraction"
 //  Haitao Mi and Liang Huang
@@ -54,6 +60,10 @@ HyperGraph* ForestExtractor::ExtractMinimalRules(
             FragFront frag_front = open.top(); open.pop();
             // If there are no more nodes to expand, add the rule
             if(frag_front.second.size() == 0) {
+                // The tails were found in the order that their parents were
+                // expanded, number them in the order of the source instead
+                vector<HyperNode*> & tails = frag_front.first->GetTails();
+                stable_sort(tails.begin(), tails.end(), SrcSpanLess);
                 ret->AddEdge(frag_front.first);
                 new_node->AddEdge(frag_front.first);
             }
-- 
2.43.0


From 34f597dd858209370d61a8b66f3d278e759f3d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:16 +0000
Subject: [PATCH 027/123] fix: extracted rules lost the word alignments of
 words with several parses or with siblings

---
 src/lib/forest-extractor.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/lib/forest-extractor.cc b/src/lib/forest-extractor.cc
index d48f8af..4bd6cd1 100644
--- a/src/lib/forest-extractor.cc
+++ b/src/lib/forest-extractor.cc
@@ -373,12 +373,11 @@ string RuleExtractor::RuleToString(const RuleEdge & rule, const Sentence & src_s
     BOOST_FOREACH(HyperEdge *edge, rule.GetFragmentEdges()) {
         remaining_fragments.push_back(edge);
         // Add the terminal ids for the source
-        pair<int,int> src_span = edge->GetHead()->GetSpan();
-        if(edge->GetHead()->IsPreTerminal()) {
-            for(int i = src_span.first; i < src_span.second; i++)
-                src_ids.push_back(i);
-        }
+        BOOST_FOREACH(const HyperNode * tail, edge->GetTails())
+            if(tail->IsTerminal())
+                src_ids.push_back(tail->GetSpan().first);
     }
+    sort(src_ids.begin(), src_ids.end());
     int tail_num = 0;
     PrintRuleSurface(*(*remaining_fragments.begin())->GetHead(), src_sent, remaining_fragments, tail_num, oss);
     if(remaining_fragments.size() > 0)
-- 
2.43.0


From 549a1ae9cb4aef40ba2f2b55bb37d3966b227261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:16 +0000
Subject: [PATCH 028/123] fix: rule extraction with normalized counts crashed
 on sentences without alignments

---
 src/lib/hyper-graph.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/hyper-graph.cc b/src/lib/hyper-graph.cc
index a5283c2..e197ab9 100644
--- a/src/lib/hyper-graph.cc
+++ b/src/lib/hyper-graph.cc
@@ -517,6 +517,8 @@ vector< vector<HyperEdge*> > HyperGraph::GetReversedEdges() {
 
 // Perform the inside-outside algorithm, where each edge score is a log probability
 void HyperGraph::InsideOutsideNormalize() {
+    // Nothing to do for an empty graph (e.g. a sentence without alignments)
+    if(nodes_.empty()) return;
     // Calculate the inside and outside probabilities
     vector<Real> inside(nodes_.size(), -REAL_MAX), outside(nodes_.size(), -REAL_MAX);
     vector<vector<HyperEdge*> > rev_edges = GetReversedEdges();
-- 
2.43.0


From 2c59101986257d84902516a5a91a25baa818d7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:17 +0000
Subject: [PATCH 029/123] fix: hierarchical extraction paired unaligned source
 words with an unaligned first target word

---
 src/lib/hiero-extractor.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/hiero-extractor.cc b/src/lib/hiero-extractor.cc
index 506e4b4..dd6e7d7 100644
--- a/src/lib/hiero-extractor.cc
+++ b/src/lib/hiero-extractor.cc
@@ -140,6 +140,8 @@ HieroExtractor::PhrasePairs HieroExtractor::ExtractPhrase(const SourceAlignment
                 BOOST_FOREACH(int _t, s2t[s_end])
                     tp[_t]++;
             }
+            // A phrase pair must contain at least one alignment
+            if (tp.empty()) continue;
             int t_begin = MapMinKey(tp);
             int t_end = MapMaxKey(tp);
             if (QuasiConsecutive(t_begin,t_end,tp,t2s)) {
-- 
2.43.0


From 4d9ebe3e365ac7048d38737d19758386ff076160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:02 +0000
Subject: [PATCH 030/123] fix: hierarchical extraction never included unaligned
 words at the end of the source sentence

---
 src/lib/hiero-extractor.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/hiero-extractor.cc b/src/lib/hiero-extractor.cc
index dd6e7d7..ee0767a 100644
--- a/src/lib/hiero-extractor.cc
+++ b/src/lib/hiero-extractor.cc
@@ -36,7 +36,9 @@ bool HieroExtractor::IsRuleValid(HieroRule* rule, int max_terminals) {
 vector< vector<HieroRule*> > HieroExtractor::ExtractHieroRule(const Alignment & align, const Sentence & source, 
         const Sentence & target) const
 {
-    const SourceAlignment & src_align = align.GetSrcAlignments();
+    SourceAlignment src_align = align.GetSrcAlignments();
+    // The alignment ends at the last aligned word, but phrases may continue
+    if (src_align.size() < source.size()) src_align.resize(source.size());
     vector< vector<HieroRule*> > ret;
     HieroExtractor::PhrasePairs filtered_pairs;
     HieroExtractor::PhrasePairs pairs;
-- 
2.43.0


From 913bc26f035749f99019da86582541bde552fe15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:09 +0000
Subject: [PATCH 031/123] fix: worker threads read the stop flag of the task
 pool without holding its lock

---
 src/lib/thread-pool.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/thread-pool.cc b/src/lib/thread-pool.cc
index a5674a7..be7dd48 100644
--- a/src/lib/thread-pool.cc
+++ b/src/lib/thread-pool.cc
@@ -14,12 +14,13 @@ ThreadPool::ThreadPool(int num_threads, int queue_limit) :
 }
 
 void ThreadPool::Run() {
-    while(!stopped_) {
+    while(true) {
         Task* task = NULL;
         {
             boost::mutex::scoped_lock lock(mutex_);
             if(tasks_.empty() && !stopped_)
                 thread_needed_.wait(lock);
+            if(stopped_) break;
             if(!stopped_ && !tasks_.empty()) {
                 task = tasks_.front();
                 tasks_.pop();
-- 
2.43.0


From c75ab4ecbcf5b671a4f3955ab5a9b21dc16328fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:09 +0000
Subject: [PATCH 032/123] fix: ThreadPool::Wait could miss the last wake-up and
 returned while tasks were still running

---
 src/include/travatar/thread-pool.h |  1 +
 src/lib/thread-pool.cc             | 11 ++++++-----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/include/travatar/thread-pool.h b/src/include/travatar/thread-pool.h
index a2ecc5c..5e5a100 100644
--- a/src/include/travatar/thread-pool.h
+++ b/src/include/travatar/thread-pool.h
@@ -46,6 +46,7 @@ protected:
     bool stopping_;
     bool delete_tasks_;
     int queue_limit_;
+    int running_;
 
 };
 
diff --git a/src/lib/thread-pool.cc b/src/lib/thread-pool.cc
index be7dd48..3380266 100644
--- a/src/lib/thread-pool.cc
+++ b/src/lib/thread-pool.cc
@@ -8,7 +8,7 @@ using namespace boost;
 
 ThreadPool::ThreadPool(int num_threads, int queue_limit) :
         stopped_(false), stopping_(false), delete_tasks_(true),
-        queue_limit_(queue_limit) {
+        queue_limit_(queue_limit), running_(0) {
     for(int i = 0; i < num_threads; i++)
         threads_.create_thread(bind(&ThreadPool::Run, this));
 }
@@ -24,12 +24,15 @@ void ThreadPool::Run() {
             if(!stopped_ && !tasks_.empty()) {
                 task = tasks_.front();
                 tasks_.pop();
+                ++running_;
             }
         }
         if(task) {
             task->Run();
             if(delete_tasks_)
                 delete task;
+            boost::mutex::scoped_lock lock(mutex_);
+            --running_;
         }
         thread_available_.notify_all();
     }
@@ -46,11 +49,9 @@ void ThreadPool::Submit(Task* task) {
 }
 
 void ThreadPool::Wait() {
-    while(!tasks_.empty()) {
-        boost::mutex::scoped_lock lock(mutex_);
+    boost::mutex::scoped_lock lock(mutex_);
+    while(!tasks_.empty() || running_ > 0)
         thread_available_.wait(lock);
-    }
-    sleep(1);
 }
 
 void ThreadPool::Stop(bool process_remaining) {
-- 
2.43.0


From 46ad03d0085c3296af216d3395a9c127db0e4d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:20 +0000
Subject: [PATCH 033/123] fix: threads sharing a binarizer raced on its map of
 barred symbols

---
 src/include/travatar/binarizer.h | 3 +++
 src/lib/binarizer.cc             | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/include/travatar/binarizer.h b/src/include/travatar/binarizer.h
index 30edb48..7107bb8 100644
--- a/src/include/travatar/binarizer.h
+++ b/src/include/travatar/binarizer.h
@@ -3,6 +3,7 @@
 
 #include <travatar/graph-transformer.h>
 #include <travatar/sentence.h>
+#include <boost/thread/mutex.hpp>
 #include <map>
 #include <string>
 
@@ -13,6 +14,8 @@ class Binarizer : public GraphTransformer {
 
 protected:
     std::map<int,int> barred_map_;
+    // One binarizer is shared by all threads
+    mutable boost::mutex barred_mutex_;
 
 public:
 
diff --git a/src/lib/binarizer.cc b/src/lib/binarizer.cc
index 5e8b38c..fdcd4ab 100644
--- a/src/lib/binarizer.cc
+++ b/src/lib/binarizer.cc
@@ -25,6 +25,7 @@ Binarizer * Binarizer::CreateBinarizerFromString(const std::string & bin) {
 }
 
 WordId Binarizer::GetBarredSymbol(WordId sym) const {
+    boost::mutex::scoped_lock lock(barred_mutex_);
     map<int,int>::const_iterator it = barred_map_.find(sym);
     if(it != barred_map_.end()) return it->second;
     WordId ret = Dict::WID(Dict::WSym(sym)+"'");
-- 
2.43.0


From 4f85fbbab1cb04784a49fe7669b939317cb4166c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:42 +0000
Subject: [PATCH 034/123] fix: threads tuning on forests re-scored the same
 forest at the same time

---
 src/include/travatar/tuning-example-forest.h | 4 ++++
 src/lib/tuning-example-forest.cc             | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/include/travatar/tuning-example-forest.h b/src/include/travatar/tuning-example-forest.h
index c394cdb..e7a34c6 100644
--- a/src/include/travatar/tuning-example-forest.h
+++ b/src/include/travatar/tuning-example-forest.h
@@ -5,6 +5,7 @@
 #include <travatar/tuning-example.h>
 #include <travatar/sentence.h>
 #include <boost/shared_ptr.hpp>
+#include <boost/thread/mutex.hpp>
 #include <set>
 #include <cfloat>
 
@@ -86,6 +87,9 @@ protected:
     int id_;
     // Multiplier
     Real mult_;
+    // Finding the best hypothesis re-scores the forest in place, so threads tuning
+    // from different starting weights must take turns
+    mutable boost::mutex forest_mutex_;
 
 };
 
diff --git a/src/lib/tuning-example-forest.cc b/src/lib/tuning-example-forest.cc
index 8c4628c..64a5677 100644
--- a/src/lib/tuning-example-forest.cc
+++ b/src/lib/tuning-example-forest.cc
@@ -79,6 +79,7 @@ void TuningExampleForest::CountWeights(set<WordId> & weights) {
 
 // Calculate the potential gain for a single example given the current weights
 SparseMap TuningExampleForest::CalculatePotentialGain(const SparseMap & weights) {
+    boost::mutex::scoped_lock lock(forest_mutex_);
     // Find the best according to the weights
     forest_->ResetViterbiScores();
     Weights wval(weights);
@@ -133,6 +134,7 @@ ConvexHull TuningExampleForest::CalculateConvexHull(
         }
     }
     // Calculate the score of the current best hypothesis
+    boost::mutex::scoped_lock lock(forest_mutex_);
     forest_->ResetViterbiScores();
     Weights wval(weights);
     forest_->ScoreEdges(wval);
-- 
2.43.0


From 1172fe2e64ce184c64adbb5699e59b05ca3478a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:42 +0000
Subject: [PATCH 035/123] fix: threads tuning with BLEU raced on its cache of
 reference n-grams

---
 src/include/travatar/eval-measure-bleu.h | 3 +++
 src/lib/eval-measure-bleu.cc             | 1 +
 2 files changed, 4 insertions(+)

diff --git a/src/include/travatar/eval-measure-bleu.h b/src/include/travatar/eval-measure-bleu.h
index dac2f4a..fa19cd1 100644
--- a/src/include/travatar/eval-measure-bleu.h
+++ b/src/include/travatar/eval-measure-bleu.h
@@ -14,6 +14,7 @@
 #include <travatar/eval-measure.h>
 #include <travatar/real.h>
 #include <boost/shared_ptr.hpp>
+#include <boost/thread/mutex.hpp>
 #include <map>
 #include <vector>
 
@@ -118,6 +119,8 @@ protected:
     Real smooth_val_;
     // A cache to hold the stats
     StatsCache cache_;
+    // Threads that tune at the same time share the cache
+    boost::mutex cache_mutex_;
     // The scope
     BleuScope scope_;
     // The weight of precision in F-measure, from one to zero (default 1)
diff --git a/src/lib/eval-measure-bleu.cc b/src/lib/eval-measure-bleu.cc
index bcd3ca4..d5262de 100644
--- a/src/lib/eval-measure-bleu.cc
+++ b/src/lib/eval-measure-bleu.cc
@@ -27,6 +27,7 @@ EvalMeasureBleu::NgramStats * EvalMeasureBleu::ExtractNgrams(const Sentence & se
 
 boost::shared_ptr<EvalMeasureBleu::NgramStats> EvalMeasureBleu::GetCachedStats(const Sentence & sent, int cache_id) {
     if(cache_id == INT_MAX) return boost::shared_ptr<NgramStats>(ExtractNgrams(sent));
+    boost::mutex::scoped_lock lock(cache_mutex_);
     StatsCache::const_iterator it = cache_.find(cache_id);
     if(it == cache_.end()) {
         boost::shared_ptr<NgramStats> new_stats(ExtractNgrams(sent));
-- 
2.43.0


From d04f7d976ec0e922a606c5ff6ff92b74f60350d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:42 +0000
Subject: [PATCH 036/123] fix: greedy MERT read the best gain without the lock
 its tasks update it under

---
 src/lib/tune-greedy-mert.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lib/tune-greedy-mert.cc b/src/lib/tune-greedy-mert.cc
index 9f2d1d4..4051294 100644
--- a/src/lib/tune-greedy-mert.cc
+++ b/src/lib/tune-greedy-mert.cc
@@ -86,8 +86,9 @@ LineSearchResult TuneGreedyMert::TuneOnce(SparseMap & weights) {
 
     // Dispatch jobs until the best value exceeds the expected value
     BOOST_REVERSE_FOREACH(const DIPair & val, vals) {
-        if((val.first < best_result_.gain) || 
-           (early_terminate_ && best_result_.gain >= gain_threshold_))
+        Real best_gain = GetBestGain();
+        if((val.first < best_gain) || 
+           (early_terminate_ && best_gain >= gain_threshold_))
             break;
         GreedyMertTask* task = new GreedyMertTask(task_id++, *this, val.second, val.first, out_collect.get());
         // If the threads are not correct
@@ -118,4 +119,7 @@ Real TuneGreedyMert::RunTuning(SparseMap & weights) {
     return result.after->ConvertToScore();
 }
 
-Real TuneGreedyMert::GetBestGain() { return best_result_.gain; }
+Real TuneGreedyMert::GetBestGain() {
+    boost::mutex::scoped_lock lock(result_mutex_);
+    return best_result_.gain;
+}
-- 
2.43.0


From 893dd8749631f7dd41556bf793881d4c5d40ecee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:42 +0000
Subject: [PATCH 037/123] fix: greedy MERT crashed when its last round found no
 gain

---
 src/lib/tune-greedy-mert.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/tune-greedy-mert.cc b/src/lib/tune-greedy-mert.cc
index 4051294..021ca9f 100644
--- a/src/lib/tune-greedy-mert.cc
+++ b/src/lib/tune-greedy-mert.cc
@@ -116,6 +116,9 @@ Real TuneGreedyMert::RunTuning(SparseMap & weights) {
     do {
         result = TuneOnce(weights);
     } while(result.gain > gain_threshold_);
+    // If the last round found nothing to gain, the score is that of the current weights
+    if(!result.after)
+        result = TuneMert::LineSearch(weights, SparseMap(), examps_);
     return result.after->ConvertToScore();
 }
 
-- 
2.43.0


From 483ae91a41f82a98cdb7436fd62b0991bfc5a83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:42 +0000
Subject: [PATCH 038/123] fix: all threads of L-BFGS tuning wrote to the
 gradient they share

---
 src/lib/tune-lbfgs.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lib/tune-lbfgs.cc b/src/lib/tune-lbfgs.cc
index c3df3fa..f1bea09 100644
--- a/src/lib/tune-lbfgs.cc
+++ b/src/lib/tune-lbfgs.cc
@@ -24,6 +24,8 @@ TuneLbfgs::~TuneLbfgs() {
 
 void TuneLbfgs::Init(const SparseMap & init_weights) {
     gradient_->Init(init_weights, examps_);
+    // L-BFGS minimizes, so use the negative (set here as RunTuning is called by several threads)
+    gradient_->SetMult(-1);
 }
 
 Real TuneLbfgs::operator()(size_t n, const Real * x, Real * g) const {
@@ -45,9 +47,6 @@ Real TuneLbfgs::RunTuning(SparseMap & kv) {
     // The final score
     Real last_score = 0.0;
 
-    // Initialize the gradient
-    gradient_->SetMult(-1);
-
     // Initialize the weights appropriately
     vector<Real> weights;
     if(!use_init_)
-- 
2.43.0


From 3f3eb63f365ba28ba09e71313243f4fafc7238f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:42 +0000
Subject: [PATCH 039/123] fix: online tuning with the perceptron always died
 when scoring its n-best lists

---
 src/include/travatar/weights.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/include/travatar/weights.h b/src/include/travatar/weights.h
index de19054..0655bbf 100644
--- a/src/include/travatar/weights.h
+++ b/src/include/travatar/weights.h
@@ -99,6 +99,15 @@ inline Real operator*(const Weights & lhs, const SparseVector & rhs) {
     return ret;
 }
 
+// Weights that regularize lazily can only be read through a non-constant access
+inline Real operator*(Weights & lhs, const SparseVector & rhs) {
+    Real ret = 0;
+    BOOST_FOREACH(const SparsePair & val, rhs.GetImpl()) {
+        ret += val.second * lhs.GetCurrent(val.first);
+    }
+    return ret;
+}
+
 }
 
 
-- 
2.43.0


From 20163e0038f4cfed944db51f6721eef0ab88cc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:16 +0000
Subject: [PATCH 040/123] fix: the final perceptron weights were read through
 an iterator of an erased element

---
 src/lib/weights-average-perceptron.cc | 4 +++-
 src/lib/weights-perceptron.cc         | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lib/weights-average-perceptron.cc b/src/lib/weights-average-perceptron.cc
index 6308526..38f50c6 100644
--- a/src/lib/weights-average-perceptron.cc
+++ b/src/lib/weights-average-perceptron.cc
@@ -12,7 +12,9 @@ inline Real InRange(Real val, pair<Real,Real> range) {
 // Get the final values of the weights
 const SparseMap & WeightsAveragePerceptron::GetFinal() {
     if(curr_iter_) {
-        BOOST_FOREACH(SparseMap::value_type final_val, current_) {
+        // Getting a value removes it from the map if it is zero, so iterate over a copy
+        SparseMap current(current_);
+        BOOST_FOREACH(const SparseMap::value_type & final_val, current) {
             // Save the old value and get the new value in the range
             int prev_iter = last_update_[final_val.first];
             Real avg_val = final_[final_val.first];
diff --git a/src/lib/weights-perceptron.cc b/src/lib/weights-perceptron.cc
index 7758465..4be738e 100644
--- a/src/lib/weights-perceptron.cc
+++ b/src/lib/weights-perceptron.cc
@@ -10,8 +10,10 @@ inline Real InRange(Real val, pair<Real,Real> range) {
 
 // Get the final values of the weights
 const SparseMap & WeightsPerceptron::GetFinal() {
-    BOOST_FOREACH(SparseMap::value_type val, current_)
-        val.second = GetCurrent(val.first);
+    // Getting a value removes it from the map if it is regularized to zero, so iterate over a copy
+    SparseMap current(current_);
+    BOOST_FOREACH(const SparseMap::value_type & val, current)
+        GetCurrent(val.first);
     return current_;
 }
 
-- 
2.43.0


From 952099416786d5882ffab3febe3a329c5f894605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:02 +0000
Subject: [PATCH 041/123] fix: the JSON reader took numeric target words for
 internal word IDs

---
 src/lib/tree-io.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/tree-io.cc b/src/lib/tree-io.cc
index a8c72e6..877944a 100644
--- a/src/lib/tree-io.cc
+++ b/src/lib/tree-io.cc
@@ -233,7 +233,8 @@ HyperGraph * JSONTreeIO::ReadTree(istream & in) {
                 try {
                     BOOST_FOREACH(ptree::value_type &x, t.second.get_child("words")) {
                         int val = x.second.get<int>("", INT_MAX);
-                        if(val == INT_MAX)
+                        // Only non-terminals are written as (negative) numbers, others are words like "42"
+                        if(val >= 0)
                             val = Dict::WID(x.second.get<string>(""));
                         trg_data.words.push_back(val);
                     }
-- 
2.43.0


From c06c975e8dfd122891e9deff0556873371b1acd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:02 +0000
Subject: [PATCH 042/123] fix: the JSON reader died on nodes that were written
 without a symbol

---
 src/lib/tree-io.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/tree-io.cc b/src/lib/tree-io.cc
index 877944a..b663a1a 100644
--- a/src/lib/tree-io.cc
+++ b/src/lib/tree-io.cc
@@ -199,7 +199,9 @@ HyperGraph * JSONTreeIO::ReadTree(istream & in) {
     BOOST_FOREACH(ptree::value_type &v, pt.get_child("nodes")) {
         HyperNode * node = new HyperNode;
         node->SetId(v.second.get<int>("id"));
-        node->SetSym(Dict::WID(v.second.get<string>("sym")));
+        // Nodes without a symbol, such as those added by a language model, are written without "sym"
+        boost::optional<string> sym = v.second.get_optional<string>("sym");
+        if(sym) node->SetSym(Dict::WID(*sym));
         ptree::const_iterator it = v.second.get_child("span").begin();
         int l = it->second.get<int>(""); int r = (++it)->second.get<int>("");
         node->SetSpan(make_pair(l, r));
-- 
2.43.0


From 9f5c53501d879732bcad6861fe6c06d009a57713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:02 +0000
Subject: [PATCH 043/123] fix: feature names with quotes or backslashes made
 the JSON forests unreadable

---
 src/lib/sparse-map.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/sparse-map.cc b/src/lib/sparse-map.cc
index 8c97133..3dc0cc6 100644
--- a/src/lib/sparse-map.cc
+++ b/src/lib/sparse-map.cc
@@ -30,7 +30,7 @@ std::ostream & operator<<(std::ostream & out, const SparseMap & rhs) {
     BOOST_FOREACH(const SparsePair & kv, rhs) {
         if(kv.second != 0) {
             if(count++ != 0) out << ", ";
-            out << "\"" << Dict::WSym(kv.first) << "\": " << kv.second;
+            out << Dict::WSymEscaped(kv.first) << ": " << kv.second;
         }
     }
     out << "}";
@@ -180,7 +180,7 @@ std::ostream & operator<<(std::ostream & out, const SparseVector & rhs) {
     BOOST_FOREACH(const SparsePair & kv, rhs.GetImpl()) {
         if(kv.second != 0) {
             if(count++ != 0) out << ", ";
-            out << "\"" << Dict::WSym(kv.first) << "\": " << kv.second;
+            out << Dict::WSymEscaped(kv.first) << ": " << kv.second;
         }
     }
     out << "}";
-- 
2.43.0


From e669bffc0beec38d1b9ac1290748896db3941969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:56 +0000
Subject: [PATCH 044/123] fix: greedy MERT could repeat the same gains from
 ties between hypotheses forever

---
 src/lib/tune-greedy-mert.cc | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/lib/tune-greedy-mert.cc b/src/lib/tune-greedy-mert.cc
index 021ca9f..a5a777f 100644
--- a/src/lib/tune-greedy-mert.cc
+++ b/src/lib/tune-greedy-mert.cc
@@ -112,14 +112,24 @@ LineSearchResult TuneGreedyMert::TuneOnce(SparseMap & weights) {
 
 // Tune new weights using greedy mert until the threshold is exceeded
 Real TuneGreedyMert::RunTuning(SparseMap & weights) {
-    LineSearchResult result;
-    do {
-        result = TuneOnce(weights);
-    } while(result.gain > gain_threshold_);
-    // If the last round found nothing to gain, the score is that of the current weights
-    if(!result.after)
-        result = TuneMert::LineSearch(weights, SparseMap(), examps_);
-    return result.after->ConvertToScore();
+    Real score = -REAL_MAX;
+    while(true) {
+        SparseMap last_weights = weights;
+        LineSearchResult result = TuneOnce(weights);
+        if(!(result.gain > gain_threshold_)) break;
+        // Gains are relative to one way of breaking ties between hypotheses, so if they
+        // do not raise the score in the end we would repeat them forever
+        Real next_score = result.after->ConvertToScore();
+        if(next_score <= score) {
+            weights = last_weights;
+            break;
+        }
+        score = next_score;
+    }
+    // If there was nothing to gain, the score is that of the current weights
+    if(score == -REAL_MAX)
+        score = TuneMert::LineSearch(weights, SparseMap(), examps_).before->ConvertToScore();
+    return score;
 }
 
 Real TuneGreedyMert::GetBestGain() {
-- 
2.43.0


From 76636e92b3e62775dc93328052cd5b924ea2aa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:14 +0000
Subject: [PATCH 045/123] fix: tuning crashed on the empty forest of a sentence
 that was not parsed

---
 src/lib/tuning-example-forest.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/tuning-example-forest.cc b/src/lib/tuning-example-forest.cc
index 64a5677..b65a4c7 100644
--- a/src/lib/tuning-example-forest.cc
+++ b/src/lib/tuning-example-forest.cc
@@ -40,6 +40,8 @@ void TuningExampleForest::AddHypothesis(const boost::shared_ptr<HyperGraph> & hg
         forest_->AddNode(new HyperNode);
         forest_->SetWords(hg->GetWords());
     }
+    // Sentences that could not be parsed have nothing to add
+    if(hg->NumNodes() == 0) return;
     // Append the forest, and add an edge connecting to the root node
     int id = forest_->Append(*hg);
     HyperNode *root = forest_->GetNode(0), *child = forest_->GetNode(id);
@@ -80,6 +82,7 @@ void TuningExampleForest::CountWeights(set<WordId> & weights) {
 // Calculate the potential gain for a single example given the current weights
 SparseMap TuningExampleForest::CalculatePotentialGain(const SparseMap & weights) {
     boost::mutex::scoped_lock lock(forest_mutex_);
+    if(forest_->NumEdges() == 0) return SparseMap();
     // Find the best according to the weights
     forest_->ResetViterbiScores();
     Weights wval(weights);
@@ -122,6 +125,7 @@ ConvexHull TuningExampleForest::CalculateConvexHull(
                         const SparseMap & weights,
                         const SparseMap & gradient) const {
     ConvexHull ret;
+    if(forest_->NumEdges() == 0) return ret;
     // Find if any features in the gradient are not active
     bool active = (active_.size() == 0);
     if(!active) {
-- 
2.43.0


From 207ef4aa08f9f21365124240661d29c802fe719b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:14 +0000
Subject: [PATCH 046/123] fix: MERT and online tuning crashed without a message
 if there were no examples

---
 src/lib/tune-mert.cc   | 2 ++
 src/lib/tune-online.cc | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/lib/tune-mert.cc b/src/lib/tune-mert.cc
index f8efe2d..e684feb 100644
--- a/src/lib/tune-mert.cc
+++ b/src/lib/tune-mert.cc
@@ -51,6 +51,8 @@ LineSearchResult TuneMert::LineSearch(
             }
         }
     }
+    if(!base_stats)
+        THROW_ERROR("Must have at least one example to perform tuning");
     boundaries[REAL_MAX] = base_stats->Times(0);
     // if(boundaries.size() == 0) return make_pair(-REAL_MAX, -REAL_MAX);
     // Find the place with the best score on the plane
diff --git a/src/lib/tune-online.cc b/src/lib/tune-online.cc
index 05b69ed..8e47613 100644
--- a/src/lib/tune-online.cc
+++ b/src/lib/tune-online.cc
@@ -25,6 +25,10 @@ using namespace travatar;
 Real TuneOnline::RunTuning(SparseMap & kv) {
     PRINT_DEBUG("Starting Online Learning Run: " << Dict::PrintSparseMap(kv) << endl, 2);
 
+    // Sanity checks
+    if(examps_.size() < 1)
+        THROW_ERROR("Must have at least one example to perform tuning");
+
     // Create a weight adjuster
     boost::shared_ptr<Weights> weights;
     if(update_ == "perceptron") {
-- 
2.43.0


From 7ed83ca96bb64f83af16b22aff30a5277d5d149e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:15 +0000
Subject: [PATCH 047/123] fix: building a sparse vector added the id of
 repeated features instead of their value

---
 src/lib/sparse-map.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sparse-map.cc b/src/lib/sparse-map.cc
index 3dc0cc6..39bf9e9 100644
--- a/src/lib/sparse-map.cc
+++ b/src/lib/sparse-map.cc
@@ -124,7 +124,7 @@ SparseVector::SparseVector(const std::vector<SparsePair> & vec) : impl_(vec) {
     SparseVectorImpl::iterator itl = impl_.begin(), itr = impl_.begin()+1;
     while(itr != impl_.end()) {
         if(itl->first == itr->first) {
-            itl->second += itr->first;
+            itl->second += itr->second;
         } else {
             itl++;
             *itl = *itr;
-- 
2.43.0


From dd4d8f6046a3e55bddce021f31732b1754015bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:15 +0000
Subject: [PATCH 048/123] fix: subtracting a sparse vector added the features
 that only the right side has

---
 src/lib/sparse-map.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/sparse-map.cc b/src/lib/sparse-map.cc
index 39bf9e9..f074681 100644
--- a/src/lib/sparse-map.cc
+++ b/src/lib/sparse-map.cc
@@ -214,7 +214,8 @@ SparseVector & operator-=(SparseVector & lhs, const SparseVector & rhs) {
     SparseVector::SparseVectorImpl & impl = lhs.GetImpl();
     while(itr != rhs.end()) {
         if(itl == lhs.end()) {
-            impl.insert(itl, itr, rhs.end());
+            for(; itr != rhs.end(); itr++)
+                impl.push_back(make_pair(itr->first, -itr->second));
             break;
         } else if(itl->first == itr->first) {
             itl->second -= itr->second;
@@ -222,7 +223,7 @@ SparseVector & operator-=(SparseVector & lhs, const SparseVector & rhs) {
         } else if(itl->first < itr->first) {
             itl++;
         } else {
-            itl = impl.insert(itl, *itr);
+            itl = impl.insert(itl, make_pair(itr->first, -itr->second));
             itr++;
         }
     }
-- 
2.43.0


From 35a1b7e8bcb0f2a4034f1a6220478c3f00661900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:13 +0000
Subject: [PATCH 049/123] fix: adding log probabilities overflowed if the
 largest was neither first nor last

---
 src/include/travatar/softmax.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/include/travatar/softmax.h b/src/include/travatar/softmax.h
index f9f15f0..6ec376b 100644
--- a/src/include/travatar/softmax.h
+++ b/src/include/travatar/softmax.h
@@ -9,8 +9,9 @@ namespace travatar {
 inline Real AddLogProbs(const std::vector<Real> & probs) {
     if(probs.size() == 0)
         return -REAL_MAX;
-    const unsigned size = probs.size();
-    Real myMax = std::max(probs[0],probs[size-1]), norm=0;
+    Real myMax = probs[0], norm=0;
+    for(unsigned i = 1; i < probs.size(); i++)
+        myMax = std::max(myMax, probs[i]);
     for(unsigned i = 0; i < probs.size(); i++)
         norm += exp(probs[i]-myMax);
     return log(norm)+myMax;
-- 
2.43.0


From 07241ccea41c45911a57d5f0c992cbfbd67771fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:06 +0000
Subject: [PATCH 050/123] fix: labels on the target side of JSON forests were
 written as word IDs and not read

---
 src/lib/cfg-data.cc |  2 +-
 src/lib/tree-io.cc  | 10 +++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lib/cfg-data.cc b/src/lib/cfg-data.cc
index 675d515..a448293 100644
--- a/src/lib/cfg-data.cc
+++ b/src/lib/cfg-data.cc
@@ -31,7 +31,7 @@ void CfgData::AppendChild(const CfgData & child) {
 }
 
 void CfgData::Print(std::ostream & out) const {
-    out << "{\"label\": " << label;
+    out << "{\"label\": " << Dict::WSymEscaped(label);
     if(words.size()) {
         out << ", \"words\": [";
         for(int j = 0; j < (int)words.size(); j++)
diff --git a/src/lib/tree-io.cc b/src/lib/tree-io.cc
index b663a1a..675a262 100644
--- a/src/lib/tree-io.cc
+++ b/src/lib/tree-io.cc
@@ -241,7 +241,15 @@ HyperGraph * JSONTreeIO::ReadTree(istream & in) {
                         trg_data.words.push_back(val);
                     }
                 } catch (ptree_bad_path e) { }
-                // TODO: Get the symbols, head symbol
+                // Get the head symbol and the symbols of the non-terminals, -1 where there is none
+                string label = t.second.get<string>("label", "-1");
+                if(label != "-1") trg_data.label = Dict::WID(label);
+                try {
+                    BOOST_FOREACH(ptree::value_type &x, t.second.get_child("syms")) {
+                        string sym = x.second.get<string>("");
+                        trg_data.syms.push_back(sym == "-1" ? UNLABELED : Dict::WID(sym));
+                    }
+                } catch (ptree_bad_path e) { }
                 edge->GetTrgData().push_back(trg_data);
             }
         } catch (ptree_bad_path e) { }
-- 
2.43.0


From 1681b64939f7bdf96ebe7f188dab70bfd17629d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:25 +0000
Subject: [PATCH 051/123] fix: all occurrences of a word in an Egret forest
 were read as a single node

---
 src/include/travatar/tree-io.h |  2 +-
 src/lib/tree-io.cc             | 22 +++++++++++++++-------
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/include/travatar/tree-io.h b/src/include/travatar/tree-io.h
index 0f4d614..3f2f9de 100644
--- a/src/include/travatar/tree-io.h
+++ b/src/include/travatar/tree-io.h
@@ -69,7 +69,7 @@ public:
     void SetNormalize(bool normalize) { normalize_ = normalize; }
     bool GetNormalize(bool normalize) const { return normalize_; }
 private:
-    HyperNode * MakeEgretNode(const std::string & str_id, SymbolSet<int> & node_map, HyperGraph * graph);
+    HyperNode * MakeEgretNode(const std::string & str_id, const HyperNode * head, SymbolSet<int> & node_map, HyperGraph * graph);
 
     // Whether to normalize edge posteriors to per-node confusions (def: true)
     bool normalize_;
diff --git a/src/lib/tree-io.cc b/src/lib/tree-io.cc
index 675a262..546d8c2 100644
--- a/src/lib/tree-io.cc
+++ b/src/lib/tree-io.cc
@@ -281,16 +281,24 @@ void JSONTreeIO::WriteTree(const HyperGraph & tree, ostream & out) {
     out << "]}";
 }
 
-HyperNode * EgretTreeIO::MakeEgretNode(const string & str_id, SymbolSet<int> & node_map, HyperGraph * graph) {
+HyperNode * EgretTreeIO::MakeEgretNode(const string & str_id, const HyperNode * head, SymbolSet<int> & node_map, HyperGraph * graph) {
+    static const regex node_regex("(.*)\\[(\\d+),(\\d+)\\]");
+    smatch node_match;
+    bool is_word = !regex_match(str_id, node_match, node_regex);
+    // A word may appear several times in a sentence, so words are distinguished by the span of their parent
+    string key = str_id;
+    if(is_word && head != NULL) {
+        ostringstream oss;
+        oss << str_id << ' ' << head->GetSpan().first << ' ' << head->GetSpan().second;
+        key = oss.str();
+    }
     // Try to find the node
-    int id = node_map.GetId(str_id, true);
+    int id = node_map.GetId(key, true);
     if(id < graph->NumNodes()) return graph->GetNode(id);
     else if (id != graph->NumNodes()) THROW_ERROR("Mismatched ID numbers in MakeEgretTreeNode()");
     // Make the node if it doesn't exist
-    regex node_regex("(.*)\\[(\\d+),(\\d+)\\]");
-    smatch node_match;
     HyperNode * new_node;
-    if(!regex_match(str_id, node_match, node_regex)) {
+    if(is_word) {
         new_node = new HyperNode(Dict::WID(str_id));
     } else {
         new_node = new HyperNode(Dict::WID(node_match[1]), 
@@ -334,14 +342,14 @@ HyperGraph * EgretTreeIO::ReadTree(istream & in) {
         istringstream iss(line);
         // Get the head
         iss >> buff;
-        HyperNode * head = MakeEgretNode(buff, node_map, ret);
+        HyperNode * head = MakeEgretNode(buff, NULL, node_map, ret);
         HyperEdge * edge = new HyperEdge(head); ret->AddEdge(edge); head->AddEdge(edge);
         // The next string should always be "=>"
         iss >> buff;
         if(buff != "=>") THROW_ERROR("=> not found in Egret node string: " << line);
         // Read the tail nodes
         while(iss >> buff && buff != "|||") {
-            HyperNode * tail = MakeEgretNode(buff, node_map, ret);
+            HyperNode * tail = MakeEgretNode(buff, head, node_map, ret);
             // Set terminal node's spans to those of their parent
             if(tail->GetSpan().first == -1)
                 tail->SetSpan(head->GetSpan());
-- 
2.43.0


From 8782f780e49e7d5c8d73434f6e6dd0f472233e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:25 +0000
Subject: [PATCH 052/123] fix: writing the empty tree of a sentence that was
 not parsed as rules or Moses XML crashed

---
 src/lib/tree-io.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/tree-io.cc b/src/lib/tree-io.cc
index 546d8c2..ee8fe0d 100644
--- a/src/lib/tree-io.cc
+++ b/src/lib/tree-io.cc
@@ -184,6 +184,8 @@ void RuleTreeIO::WriteNode(const vector<WordId> & words,
 }
 
 void RuleTreeIO::WriteTree(const HyperGraph & tree, ostream & out) {
+    // Sentences that were not parsed have no nodes, and are written as an empty line
+    if(tree.GetNodes().size() == 0) return;
     WriteNode(tree.GetWords(), *tree.GetNode(0), out);
 }
 
@@ -425,5 +427,7 @@ void MosesXMLTreeIO::WriteNode(const vector<WordId> & words,
 }
 
 void MosesXMLTreeIO::WriteTree(const HyperGraph & tree, ostream & out) {
+    // Sentences that were not parsed have no nodes, and are written as an empty line
+    if(tree.GetNodes().size() == 0) return;
     WriteNode(tree.GetWords(), *tree.GetNode(0), out);
 }
-- 
2.43.0


From b23d256928488c9acb924ac6e054414ec2304141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:49 +0000
Subject: [PATCH 053/123] fix: flattening left chains of three or more labels,
 and lost derivations of forests

---
 src/lib/unary-flattener.cc | 66 ++++++++++++++++++++++++++------------
 1 file changed, 45 insertions(+), 21 deletions(-)

diff --git a/src/lib/unary-flattener.cc b/src/lib/unary-flattener.cc
index 24b2940..23dfd70 100644
--- a/src/lib/unary-flattener.cc
+++ b/src/lib/unary-flattener.cc
@@ -2,32 +2,56 @@
 #include <travatar/hyper-graph.h>
 #include <travatar/dict.h>
 #include <boost/foreach.hpp>
+#include <map>
+#include <set>
 
 using namespace travatar;
 using namespace std;
 using namespace boost;
 
-// Binarize the graph to the right
-HyperGraph * UnaryFlattener::TransformGraph(const HyperGraph & hg) const {
-    // First copy the graph
-    HyperGraph * ret = new HyperGraph(hg);
-    BOOST_FOREACH(HyperNode * node, ret->GetNodes()) {
-        if(node->NumEdges() > 1) {
-            // THROW_ERROR("Flatten does not currently work for hypergraphs of degree > 1");
-        } else if(node->NumEdges() == 0 ||
-                  node->GetEdge(0)->NumTails() != 1) {
-            continue;
-        }
-        HyperEdge * old_edge = node->GetEdge(0);
-        HyperNode * old_child = old_edge->GetTail(0);
-        if(old_child->NumEdges() > 0) {
-            node->GetEdges().clear();
-            node->GetEdges().push_back(old_child->GetEdge(0));
-            node->GetEdge(0)->SetHead(node);
-            node->SetSym(Dict::WID(Dict::WSym(node->GetSym())+"_"+
-                                   Dict::WSym(old_child->GetSym())));
-        } 
+// Add the flattened version of a node and everything under it to ret
+static HyperNode * FlattenNode(const HyperNode * node, HyperGraph & ret, map<const HyperNode*, HyperNode*> & built) {
+    map<const HyperNode*, HyperNode*>::const_iterator it = built.find(node);
+    if(it != built.end()) return it->second;
+    HyperNode * new_node = new HyperNode(*node);
+    new_node->SetId(-1);
+    new_node->GetEdges().clear();
+    ret.AddNode(new_node);
+    built.insert(make_pair(node, new_node));
+    // Find the end of a chain of unary edges, remembering the labels and scores that are passed
+    string sym = Dict::WSym(node->GetSym());
+    SparseVector features; Real score = 0;
+    while(node->NumEdges() == 1 && node->GetEdge(0)->NumTails() == 1 && !node->GetEdge(0)->GetTail(0)->IsTerminal()) {
+        features += node->GetEdge(0)->GetFeatures();
+        score += node->GetEdge(0)->GetScore();
+        node = node->GetEdge(0)->GetTail(0);
+        sym += "_" + Dict::WSym(node->GetSym());
+        new_node->SetSym(Dict::WID(sym));
     }
-    return ret;
+    BOOST_FOREACH(const HyperEdge * edge, node->GetEdges()) {
+        HyperEdge * new_edge = new HyperEdge(*edge);
+        new_edge->SetId(-1);
+        new_edge->SetHead(new_node);
+        new_edge->SetScore(edge->GetScore() + score);
+        new_edge->GetFeatures() += features;
+        ret.AddEdge(new_edge); new_node->AddEdge(new_edge);
+        for(int i = 0; i < edge->NumTails(); i++)
+            new_edge->GetTails()[i] = FlattenNode(edge->GetTails()[i], ret, built);
+    }
+    return new_node;
+}
 
+// Merge chains of nodes that have nothing but a single child
+HyperGraph * UnaryFlattener::TransformGraph(const HyperGraph & hg) const {
+    HyperGraph * ret = new HyperGraph;
+    ret->SetWords(hg.GetWords());
+    map<const HyperNode*, HyperNode*> built;
+    // Start from the root, and then from any other nodes that have no parents
+    set<const HyperNode*> children;
+    BOOST_FOREACH(const HyperEdge * edge, hg.GetEdges())
+        children.insert(edge->GetTails().begin(), edge->GetTails().end());
+    BOOST_FOREACH(const HyperNode * node, hg.GetNodes())
+        if(node->GetId() == 0 || children.find(node) == children.end())
+            FlattenNode(node, *ret, built);
+    return ret;
 }
-- 
2.43.0


From 1b249f9dfcc34ea0a7f395c870d09575a9db102d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:49 +0000
Subject: [PATCH 054/123] fix: splitting a word lost the score and features of
 the edge above it

---
 src/lib/word-splitter.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/word-splitter.cc b/src/lib/word-splitter.cc
index 95fd738..a874258 100644
--- a/src/lib/word-splitter.cc
+++ b/src/lib/word-splitter.cc
@@ -62,6 +62,8 @@ HyperGraph * WordSplitter::TransformGraph(const HyperGraph & hg) const {
             vector<HyperEdge*> & edges = node->GetEdges();
             HyperEdge* edge = new HyperEdge(node);
             edge->SetId(edges[0]->GetId());
+            edge->SetScore(edges[0]->GetScore());
+            edge->SetFeatures(edges[0]->GetFeatures());
             delete ret->GetEdges()[edge->GetId()];
             ret->GetEdges()[edge->GetId()] = edge;
             BOOST_FOREACH(HyperNode* new_node, new_nodes[node_idx]) {
-- 
2.43.0


From b8b872f857fdc69a9fb0c651c6924c95202dd396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:49 +0000
Subject: [PATCH 055/123] fix: splitting words that have no pre-terminal of
 their own lost the parts after the first

---
 src/lib/word-splitter.cc | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/lib/word-splitter.cc b/src/lib/word-splitter.cc
index a874258..97c728f 100644
--- a/src/lib/word-splitter.cc
+++ b/src/lib/word-splitter.cc
@@ -32,7 +32,30 @@ HyperGraph * WordSplitter::TransformGraph(const HyperGraph & hg) const {
     if(i == j) return ret;
     // For each node, modify its indexes. 
     map<pair<int, WordId>, vector<HyperNode*> > new_nodes;
-    int orig_node_size = ret->NumNodes();
+    map<HyperNode*, vector<HyperNode*> > new_terms;
+    int orig_node_size = ret->NumNodes(), orig_edge_size = ret->NumEdges();
+    // Words that have no pre-terminal of their own are replaced by their parts directly
+    for(int eid = 0; eid < orig_edge_size; eid++) {
+        HyperEdge* edge = ret->GetEdge(eid);
+        if(edge->GetHead()->IsPreTerminal()) continue;
+        vector<HyperNode*> new_tails;
+        BOOST_FOREACH(HyperNode* tail, edge->GetTails()) {
+            int pos = tail->GetSpan().first;
+            if(!tail->IsTerminal() || tail->GetSpan().second != pos+1 || ids[pos].size() <= 1) {
+                new_tails.push_back(tail);
+                continue;
+            }
+            vector<HyperNode*> & terms = new_terms[tail];
+            if(terms.size() == 0) {
+                BOOST_FOREACH(int i, ids[pos]) {
+                    terms.push_back(new HyperNode(new_wids[i], -1, make_pair(i,i+1)));
+                    ret->AddNode(terms.back());
+                }
+            }
+            new_tails.insert(new_tails.end(), terms.begin(), terms.end());
+        }
+        edge->SetTails(new_tails);
+    }
     for(int nid = 0; nid < orig_node_size; nid++) {
         HyperNode* node = ret->GetNode(nid);
         std::pair<int,int> span = node->GetSpan(),
-- 
2.43.0


From 7dffdad71d7fb673d7366e2aff002119a8677175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:41 +0000
Subject: [PATCH 056/123] fix: the rescorer numbered the output lists itself,
 losing the ids when a sentence has no hypotheses

---
 src/lib/rescorer-runner.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lib/rescorer-runner.cc b/src/lib/rescorer-runner.cc
index 9671141..b114f4e 100644
--- a/src/lib/rescorer-runner.cc
+++ b/src/lib/rescorer-runner.cc
@@ -146,9 +146,8 @@ void RescorerRunner::Run(const ConfigRescorer & config) {
             Rescore(nbest);
             Print(nbest);
             nbest.clear();
-            sent_++;
         }
-        last_id = id;
+        last_id = sent_ = id;
         nbest.push_back(RescorerNbestElement(Dict::ParseWords(columns[1]), 
                                              Dict::ParseSparseVector(columns[3]),
                                              boost::lexical_cast<Real>(columns[2])));
-- 
2.43.0


From c2d7e6e10ca58238c36ebda4b5b90883327fa02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:42 +0000
Subject: [PATCH 057/123] fix: the segmenter confused cached references with
 cached translations of the same number

---
 src/lib/mt-segmenter-runner.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/mt-segmenter-runner.cc b/src/lib/mt-segmenter-runner.cc
index 473b5c2..8ac2bdf 100644
--- a/src/lib/mt-segmenter-runner.cc
+++ b/src/lib/mt-segmenter-runner.cc
@@ -46,9 +46,10 @@ MTSegmenterRunner::MTSegmenterMemo::mapped_type MTSegmenterRunner::GetNextRefSys
                 continue;
             next_eval = next_val.second;
         }
+        // References and system outputs are cached together, so their IDs must be different
         eval = eval_measure->CalculateCachedStats(
               ref_sents[curr_refsys.first], curr_sentence,
-              curr_refsys.first, curr_refsys.second*(sys_corpus.size()+1)+i);
+              curr_refsys.first, ref_sents.size()+curr_refsys.second*(sys_corpus.size()+1)+i);
         if(next_eval.get() != NULL) eval->PlusEquals(*next_eval);
         Real my_score = eval->ConvertToScore();
         if(my_score > best_score) {
-- 
2.43.0


From c71e4bf1083a55239814af3d809baa9061f5a2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:42 +0000
Subject: [PATCH 058/123] fix: the segmenter read outside of the references if
 no segmentation is possible

---
 src/lib/mt-segmenter-runner.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/mt-segmenter-runner.cc b/src/lib/mt-segmenter-runner.cc
index 8ac2bdf..15afbd6 100644
--- a/src/lib/mt-segmenter-runner.cc
+++ b/src/lib/mt-segmenter-runner.cc
@@ -77,10 +77,14 @@ void MTSegmenterRunner::SegmentMT(
         vector<Sentence> & sys_sents) {
     MTSegmenterMemo memo;
     pair<int,int> curr_refsys(0,0);
+    if(ref_sents.size() == 0 && sys_corpus.size() != 0)
+        THROW_ERROR("No references to segment the corpus for");
     while(curr_refsys.first != (int)ref_sents.size()) {
         MTSegmenterMemo::mapped_type next_refsys = GetNextRefSys(
             ref_sents, sys_corpus, eval_measure,
             curr_refsys, memo);
+        if(next_refsys.first.first == -1)
+            THROW_ERROR("No segmentation is possible with a slack of " << slack_);
         sys_sents.push_back(Sentence());
         for(int i = curr_refsys.second; i < next_refsys.first.second; i++)
             sys_sents.rbegin()->push_back(sys_corpus[i]);
-- 
2.43.0


From dc458e8a8ff8a37bbfa064ff19dfa20cd09e6ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:46 +0000
Subject: [PATCH 059/123] fix: the segmenter evaluated candidates without the
 words of the infeasible ones before them

---
 src/lib/mt-segmenter-runner.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/mt-segmenter-runner.cc b/src/lib/mt-segmenter-runner.cc
index 15afbd6..624928a 100644
--- a/src/lib/mt-segmenter-runner.cc
+++ b/src/lib/mt-segmenter-runner.cc
@@ -35,6 +35,8 @@ MTSegmenterRunner::MTSegmenterMemo::mapped_type MTSegmenterRunner::GetNextRefSys
         curr_sentence.push_back(sys_corpus[i]);
     Real best_score = -REAL_MAX;
     for(int i = first; i <= last; i++) {
+        // Add the last word of the candidate span
+        if(i != first) curr_sentence.push_back(sys_corpus[i-1]);
         pair<int,int> next_refsys(curr_refsys.first+1, i);
         EvalStatsPtr eval, next_eval;
         if(!is_last) { 
@@ -56,7 +58,6 @@ MTSegmenterRunner::MTSegmenterMemo::mapped_type MTSegmenterRunner::GetNextRefSys
             memo[curr_refsys] = MTSegmenterMemo::mapped_type(next_refsys, eval);
             best_score = my_score;
         }
-        if(i != last) curr_sentence.push_back(sys_corpus[i]);
     }
     // If we have not found any answer, add a dummy answer
     if(best_score == -REAL_MAX)
-- 
2.43.0


From 418c374487d27c785aabf98afaf721f1ee8f2b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:56 +0000
Subject: [PATCH 060/123] fix: aligned lexical probabilities were stored by
 source position and read by target position

---
 script/train/score-t2s.pl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/script/train/score-t2s.pl b/script/train/score-t2s.pl
index d028c13..06b9da8 100755
--- a/script/train/score-t2s.pl
+++ b/script/train/score-t2s.pl
@@ -77,8 +77,8 @@ sub m1prob {
     if($LEX_ALIGNED and $align) {
         my (@probs, @num);
         while($align =~ /([0-9]+)-([0-9]+)/g) {
-            $probs[$1] += $lex{"$trgarr->[$2]\t$srcarr->[$1]"};
-            $num[$1] += 1;
+            $probs[$2] += $lex{"$trgarr->[$2]\t$srcarr->[$1]"};
+            $num[$2] += 1;
         }
         for(0 .. @$trgarr-1) {
             my $prob = ($num[$_] ? $probs[$_]/$num[$_] : $lex{"$trgarr->[$_]\tNULL"});
-- 
2.43.0


From f5d437c1e301effd03824e69f86b398513d01bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:56 +0000
Subject: [PATCH 061/123] fix: filter-rt.pl skipped every other word of a rule,
 and dropped usable rules

---
 script/train/filter-rt.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/train/filter-rt.pl b/script/train/filter-rt.pl
index 8e707ef..4015390 100755
--- a/script/train/filter-rt.pl
+++ b/script/train/filter-rt.pl
@@ -62,7 +62,7 @@ while($line = <STDIN>) {
     die "Wrong number of columns in $line" if @cols < 2;
     if(@cols == 2) { push @cols, ""; }
     my ($term, $nonterm, $bad, @currsrc);
-    while($cols[0] =~ / ("([^ ]+)"|x\d+:[^ ]+) /g) {
+    while($cols[0] =~ /(?<![^ ])("([^ ]+)"|x\d+:[^ ]+)(?![^ ])/g) {
         my $myid = $2;
         if($myid) {
             $term++;
-- 
2.43.0


From 280791c349025a6cac2a26dc22bd1170f1151633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:56 +0000
Subject: [PATCH 062/123] fix: filter-rt.pl read the last word of plain text
 with its newline, and dropped usable rules

---
 script/train/filter-rt.pl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/script/train/filter-rt.pl b/script/train/filter-rt.pl
index 4015390..a70f2b7 100755
--- a/script/train/filter-rt.pl
+++ b/script/train/filter-rt.pl
@@ -42,6 +42,7 @@ if($SRC) {
             chomp;
             @sent = split(/ +/);
         } elsif ($SRC_FORMAT eq "word") {
+            chomp;
             @sent = split(/ +/);
         } else {
             die "Illegal source format: $SRC_FORMAT";
-- 
2.43.0


From 7471ba2ed770f7954592728994348566b4a44742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:28 +0000
Subject: [PATCH 063/123] fix: label features were used as a format, and labels
 with a percent sign were garbled

---
 script/train/score-t2s.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/train/score-t2s.pl b/script/train/score-t2s.pl
index 06b9da8..8b64663 100755
--- a/script/train/score-t2s.pl
+++ b/script/train/score-t2s.pl
@@ -136,7 +136,7 @@ sub print_counts {
         }
         # Find the counts/probabilities
         my $lprob = ($cnt > 0) ? log($cnt/$sum) : -99;
-        print "$src ||| $trg ||| ".sprintf("${PREFIX}${COND_PREFIX}p=%f$extra_feat", $lprob);
+        print "$src ||| $trg ||| "."${PREFIX}${COND_PREFIX}p=".sprintf("%f", $lprob).$extra_feat;
         printf " ${PREFIX}${COND_PREFIX}l=%f", m1prob(\@srcarr, \@trgarr, $bestalign) if $LEX_PROB_FILE;
         if($JOINT) {
             printf " ${PREFIX}p=1";
-- 
2.43.0


From c3520074fdc17442d7a48baa7cd5a96d8bcc9c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:28 +0000
Subject: [PATCH 064/123] fix: filter-model.pl wrote models of the same name
 into one file

---
 script/train/filter-model.pl | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/script/train/filter-model.pl b/script/train/filter-model.pl
index e81ac6d..ea08209 100755
--- a/script/train/filter-model.pl
+++ b/script/train/filter-model.pl
@@ -14,10 +14,16 @@ if(@ARGV != 4) {
     exit 1;
 }
 
+my %used;
 sub convert_to_output {
     my $str = shift;
     $str =~ s/^.*\///g;
-    return "$ARGV[2]/$str";
+    # Models in different directories can have the same name
+    my $id = 1;
+    my $out = $str;
+    $out = ($id++)."-$str" while $used{$out};
+    $used{$out} = 1;
+    return "$ARGV[2]/$out";
 }
 
 # Read in the configuration file
-- 
2.43.0


From 98a32171e3d14e09bc514b49575da0f404da844d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:05 +0000
Subject: [PATCH 065/123] fix: score-t2s.pl died on lexical probabilities
 written as 0.0

---
 script/train/score-t2s.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/train/score-t2s.pl b/script/train/score-t2s.pl
index 8b64663..e53a2c2 100755
--- a/script/train/score-t2s.pl
+++ b/script/train/score-t2s.pl
@@ -82,7 +82,7 @@ sub m1prob {
         }
         for(0 .. @$trgarr-1) {
             my $prob = ($num[$_] ? $probs[$_]/$num[$_] : $lex{"$trgarr->[$_]\tNULL"});
-            $ret += ($prob ? log($prob) : $min_log);
+            $ret += ($prob > 0 ? log($prob) : $min_log);
         }
     # Otherwise, calculate all
     } else {
-- 
2.43.0


From 9b726fbf385ea6090120f246e5f8309d472e1e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:51 +0000
Subject: [PATCH 066/123] fix: language models formed pointers beyond the end
 of their arrays

---
 src/kenlm/lm/model.cc       | 2 +-
 src/kenlm/lm/search_trie.cc | 6 +++---
 src/kenlm/lm/state.hh       | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/kenlm/lm/model.cc b/src/kenlm/lm/model.cc
index a5a16bf..0544fa6 100644
--- a/src/kenlm/lm/model.cc
+++ b/src/kenlm/lm/model.cc
@@ -133,7 +133,7 @@ template <class Search, class VocabularyT> void GenericModel<Search, VocabularyT
 
 template <class Search, class VocabularyT> FullScoreReturn GenericModel<Search, VocabularyT>::FullScore(const State &in_state, const WordIndex new_word, State &out_state) const {
   FullScoreReturn ret = ScoreExceptBackoff(in_state.words, in_state.words + in_state.length, new_word, out_state);
-  for (const float *i = in_state.backoff + ret.ngram_length - 1; i < in_state.backoff + in_state.length; ++i) {
+  for (const float *i = in_state.backoff + (ret.ngram_length - 1); i < in_state.backoff + in_state.length; ++i) {
     ret.prob += *i;
   }
   return ret;
diff --git a/src/kenlm/lm/search_trie.cc b/src/kenlm/lm/search_trie.cc
index 5b0f55f..d908282 100644
--- a/src/kenlm/lm/search_trie.cc
+++ b/src/kenlm/lm/search_trie.cc
@@ -180,7 +180,7 @@ const float kBadProb = std::numeric_limits<float>::infinity();
 class SRISucks {
   public:
     SRISucks() {
-      for (BackoffMessages *i = messages_; i != messages_ + KENLM_MAX_ORDER - 1; ++i)
+      for (BackoffMessages *i = messages_; i != messages_ + (KENLM_MAX_ORDER - 1); ++i)
         i->Init(sizeof(ProbPointer) + sizeof(WordIndex) * (i - messages_ + 1));
     }
 
@@ -330,7 +330,7 @@ struct Gram {
 template <class Doing> class BlankManager {
   public:
     BlankManager(unsigned char total_order, Doing &doing) : total_order_(total_order), been_length_(0), doing_(doing) {
-      for (float *i = basis_; i != basis_ + KENLM_MAX_ORDER - 1; ++i) *i = kBadProb;
+      for (float *i = basis_; i != basis_ + (KENLM_MAX_ORDER - 1); ++i) *i = kBadProb;
     }
 
     void Visit(const WordIndex *to, unsigned char length, float prob) {
@@ -480,7 +480,7 @@ template <class Quant, class Bhiksha> void BuildTrie(SortedFiles &files, std::ve
     fixed_counts = finder.Counts();
   }
   unigram_file.reset(util::FDOpenOrThrow(unigram_fd));
-  for (const RecordReader *i = inputs; i != inputs + counts.size() - 2; ++i) {
+  for (const RecordReader *i = inputs; i != inputs + (counts.size() - 2); ++i) {
     if (*i) UTIL_THROW(FormatLoadException, "There's a bug in the trie implementation: the " << (i - inputs + 2) << "-gram table did not complete reading");
   }
   SanityCheckCounts(counts, fixed_counts);
diff --git a/src/kenlm/lm/state.hh b/src/kenlm/lm/state.hh
index 4891c29..ed7476a 100644
--- a/src/kenlm/lm/state.hh
+++ b/src/kenlm/lm/state.hh
@@ -75,7 +75,7 @@ struct Left {
   }
 
   void ZeroRemaining() {
-    for (uint64_t * i = pointers + length; i < pointers + KENLM_MAX_ORDER - 1; ++i)
+    for (uint64_t * i = pointers + length; i < pointers + (KENLM_MAX_ORDER - 1); ++i)
       *i = 0;
   }
 
-- 
2.43.0


From 7ee08a46be3f35b97ef48da0681dae57fa15b3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:39 +0000
Subject: [PATCH 067/123] fix: tries forgot that some n-grams without a suffix
 entry extend further

---
 src/kenlm/lm/search_trie.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/kenlm/lm/search_trie.cc b/src/kenlm/lm/search_trie.cc
index d908282..49768fa 100644
--- a/src/kenlm/lm/search_trie.cc
+++ b/src/kenlm/lm/search_trie.cc
@@ -103,8 +103,9 @@ class BackoffMessages {
       // We'll also use the same buffer to record messages to blanks that they extend.
       WordIndex *extend_out = reinterpret_cast<WordIndex*>(current_);
       const unsigned char order = (entry_size_ - sizeof(ProbPointer)) / sizeof(WordIndex);
-      for (reader.Rewind(); reader && (current_ != allocated_); ) {
-        switch (Compare(order, reader.Data(), current_)) {
+      for (reader.Rewind(); current_ != allocated_; ) {
+        // Messages that sort after the last record have nobody to receive them, either.
+        switch (reader ? Compare(order, reader.Data(), current_) : 1) {
           case -1:
             ++reader;
             break;
-- 
2.43.0


From e37eb489824e07b0bcf76bd941d5cda71441003b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 068/123] fix: statistics lost digits when written to a file

---
 src/lib/eval-measure.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/eval-measure.cc b/src/lib/eval-measure.cc
index 85badd0..8369561 100644
--- a/src/lib/eval-measure.cc
+++ b/src/lib/eval-measure.cc
@@ -91,6 +91,8 @@ void EvalStats::ReadStats(const std::string & str) {
 }
 std::string EvalStats::WriteStats() {
     std::ostringstream oss;
+    // Enough digits to read the same value back
+    oss.precision(17);
     for(int i = 0; i < (int)vals_.size(); i++) {
         if(i) oss << ' ';
         oss << vals_[i];
-- 
2.43.0


From 1d6ac73a19c2d4f8722bef32491317556a0d683b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 069/123] fix: comparing combined statistics read past the end
 of short formulas

---
 src/lib/eval-measure-adv-interp.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/eval-measure-adv-interp.cc b/src/lib/eval-measure-adv-interp.cc
index 58fad0c..a22bb70 100644
--- a/src/lib/eval-measure-adv-interp.cc
+++ b/src/lib/eval-measure-adv-interp.cc
@@ -61,9 +61,9 @@ EvalStats & EvalStatsAdvInterp::TimesEquals(EvalStatsDataType mult) {
 }
 bool EvalStatsAdvInterp::Equals(const EvalStats & rhs) const {
     const EvalStatsAdvInterp & rhsi = (const EvalStatsAdvInterp &)rhs;
-    if(stats_.size() != rhsi.stats_.size()) return false;
+    if(stats_.size() != rhsi.stats_.size() || query_ != rhsi.query_) return false;
     for(int i = 0; i < (int)stats_.size(); i++) {
-        if(!stats_[i]->Equals(*rhsi.stats_[i]) || vars_[i] != rhsi.vars_[i] || query_[i] != rhsi.query_[i])
+        if(!stats_[i]->Equals(*rhsi.stats_[i]) || vars_[i] != rhsi.vars_[i])
             return false;
     }
     return true;
-- 
2.43.0


From 674e07dd87c7b8e0ff9cc0222011c6459b9ca9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:01 +0000
Subject: [PATCH 070/123] fix: MERT ignored the permitted ranges of weights

---
 src/include/travatar/tune.h |  6 ++++++
 src/lib/tune-mert.cc        |  9 ++++++---
 src/lib/tune.cc             | 20 ++++++++++++++++++++
 3 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/include/travatar/tune.h b/src/include/travatar/tune.h
index 990441a..6a6c969 100644
--- a/src/include/travatar/tune.h
+++ b/src/include/travatar/tune.h
@@ -34,6 +34,12 @@ public:
                                 const SparseMap & weights,
                                 const SparseMap & gradient,
                                 std::pair<Real,Real> range);
+    std::pair<Real,Real> FindGradientRange(
+                                const SparseMap & weights,
+                                const SparseMap & gradient);
+
+    // Whether any weight is restricted to a range
+    bool HasRanges() const;
 
     // Getters/Setters
     void SetExamples(const std::vector<boost::shared_ptr<TuningExample> > & examps) { examps_ = examps; }
diff --git a/src/lib/tune-mert.cc b/src/lib/tune-mert.cc
index e684feb..076b041 100644
--- a/src/lib/tune-mert.cc
+++ b/src/lib/tune-mert.cc
@@ -148,7 +148,9 @@ Real TuneMert::RunTuning(SparseMap & weights) {
 
         // 3) Perform line search over one gradient at a time
         BOOST_FOREACH(const SparseMap & gradient, gradients) {
-            LineSearchResult result = TuneMert::LineSearch(weights, gradient, examps_);
+            pair<Real,Real> range = FindGradientRange(weights, gradient);
+            if(range.first > range.second) continue;
+            LineSearchResult result = TuneMert::LineSearch(weights, gradient, examps_, range);
             // Redo the gain in comparison to the currently saved best score.
             // Given that ties might exist, it is safer to take the gain this way in case
             // a tie results in a change in the best hypothesis.
@@ -166,8 +168,9 @@ Real TuneMert::RunTuning(SparseMap & weights) {
         PRINT_DEBUG("Gradient: " << Dict::PrintSparseMap(best_gradient) << endl << "Change: " << Dict::PrintSparseMap(best_gradient * best_result.pos) << endl << "After: " << Dict::PrintSparseMap(weights) << endl << best_result.after->ConvertToString() << endl, 2);
     }
 
-    // Normalize so that weights add to 1
-    NormalizeL1(weights);
+    // Normalize so that weights add to 1, unless this might move them out of their range
+    if(!HasRanges())
+        NormalizeL1(weights);
 
     return best_score;
 }
diff --git a/src/lib/tune.cc b/src/lib/tune.cc
index bfcf921..cd3fb1b 100644
--- a/src/lib/tune.cc
+++ b/src/lib/tune.cc
@@ -18,6 +18,26 @@ pair<Real,Real> Tune::FindGradientRange(const SparseMap & weights, WordId feat)
     return FindGradientRange(weights, gradient, range);
 }
 
+// The range over which every weight moved by the gradient stays in its own range
+pair<Real,Real> Tune::FindGradientRange(const SparseMap & weights, const SparseMap & gradient) {
+    pair<Real,Real> ret(-REAL_MAX, REAL_MAX);
+    BOOST_FOREACH(const SparseMap::value_type & grad, gradient) {
+        RangeMap::const_iterator it = ranges_.find(grad.first);
+        SparseMap single; single[grad.first] = grad.second;
+        pair<Real,Real> range = FindGradientRange(weights, single, it == ranges_.end() ? ranges_[-1] : it->second);
+        ret.first = max(range.first, ret.first);
+        ret.second = min(range.second, ret.second);
+    }
+    return ret;
+}
+
+bool Tune::HasRanges() const {
+    BOOST_FOREACH(const RangeMap::value_type & range, ranges_)
+        if(range.second.first != -REAL_MAX || range.second.second != REAL_MAX)
+            return true;
+    return false;
+}
+
 // Current value can be found here
 // range(-2,2)
 // original(-1)
-- 
2.43.0


From 8d203c0c582d5f8be13146185a433235ef2c4556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:01 +0000
Subject: [PATCH 071/123] fix: MERT did not tune or report scores that are not
 positive

---
 src/lib/tune-mert.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lib/tune-mert.cc b/src/lib/tune-mert.cc
index 076b041..1bc4a9a 100644
--- a/src/lib/tune-mert.cc
+++ b/src/lib/tune-mert.cc
@@ -104,8 +104,8 @@ void TuneMert::Init(const SparseMap & init_weights) {
 
 // Tune new weights using greedy mert until the threshold is exceeded
 Real TuneMert::RunTuning(SparseMap & weights) {
-    // Continue
-    Real best_score = 0;
+    // The score may be negative, so start below all scores
+    Real best_score = -REAL_MAX;
     PRINT_DEBUG("Starting MERT Run: " << Dict::PrintSparseMap(weights) << endl, 2);
     while(true) {
         // 1) Initialize the best result
@@ -155,19 +155,23 @@ Real TuneMert::RunTuning(SparseMap & weights) {
             // Given that ties might exist, it is safer to take the gain this way in case
             // a tie results in a change in the best hypothesis.
             result.gain = result.after->ConvertToScore() - best_score;
-            if(result.gain > best_result.gain) {
+            if(!best_result.after || result.after->ConvertToScore() > best_result.after->ConvertToScore()) {
                 // Calculate the next score and make sure it is better than the previous
                 best_result = result;
                 best_gradient = gradient;
             }
         }
-        if(best_result.gain <= gain_threshold_) break;
+        if(!best_result.after || best_result.gain <= gain_threshold_) break;
         // 4) Update based on the gradient
         weights += best_gradient * best_result.pos;
         best_score = best_result.after->ConvertToScore();
         PRINT_DEBUG("Gradient: " << Dict::PrintSparseMap(best_gradient) << endl << "Change: " << Dict::PrintSparseMap(best_gradient * best_result.pos) << endl << "After: " << Dict::PrintSparseMap(weights) << endl << best_result.after->ConvertToString() << endl, 2);
     }
 
+    // If there was nothing to search, the score is that of the current weights
+    if(best_score == -REAL_MAX)
+        best_score = TuneMert::LineSearch(weights, SparseMap(), examps_).before->ConvertToScore();
+
     // Normalize so that weights add to 1, unless this might move them out of their range
     if(!HasRanges())
         NormalizeL1(weights);
-- 
2.43.0


From dbf49ad193d136f38d3f7ba79e168f2804558b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:01 +0000
Subject: [PATCH 072/123] fix: line search over a single point could report the
 score of another one

---
 src/lib/tune-mert.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/tune-mert.cc b/src/lib/tune-mert.cc
index 1bc4a9a..43d5d5d 100644
--- a/src/lib/tune-mert.cc
+++ b/src/lib/tune-mert.cc
@@ -67,7 +67,11 @@ LineSearchResult TuneMert::LineSearch(
             zero_stats = curr_stats->Clone();
         // Update the span if it exceeds the previous best and is in the acceptable gradient range
         Real curr_score = curr_stats->ConvertToScore();
-        if(curr_score > best_score && (last_bound < range.second && boundary.first > range.first)) {
+        // A range of a single point may lie on a boundary, where ties are broken as they are at zero
+        bool in_range = (last_bound < range.second && boundary.first > range.first);
+        if(range.first == range.second)
+            in_range = (last_bound <= range.second && boundary.first >= range.first);
+        if(in_range && (curr_score > best_score || range.first == range.second)) {
             best_span = ScoredSpan(Span(last_bound, boundary.first), curr_stats->Clone());
             best_score = curr_score;
         }
-- 
2.43.0


From 3a5d629bd244e195a06cd606968821691160b1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:13 +0000
Subject: [PATCH 073/123] fix: permitted ranges of weights were cut to whole
 numbers

---
 src/lib/batch-tune-runner.cc | 5 +++--
 src/lib/travatar-runner.cc   | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib/batch-tune-runner.cc b/src/lib/batch-tune-runner.cc
index aa59a2b..f5280c5 100644
--- a/src/lib/batch-tune-runner.cc
+++ b/src/lib/batch-tune-runner.cc
@@ -20,6 +20,7 @@
 
 #include <boost/shared_ptr.hpp>
 #include <boost/foreach.hpp>
+#include <boost/lexical_cast.hpp>
 #include <boost/algorithm/string.hpp>
 
 #include <fstream>
@@ -154,8 +155,8 @@ void BatchTuneRunner::DoTuning(const ConfigBatchTune & config) {
             if(range_vals.size() != 2 && range_vals.size() != 3)
                 THROW_ERROR("Weight ranges must be in the format MIN|MAX[|NAME]");
             WordId id = (range_vals.size() == 3 ? Dict::WID(range_vals[2]) : -1);
-            Real min_score = (range_vals[0] == "" ? -REAL_MAX : atoi(range_vals[0].c_str()));
-            Real max_score = (range_vals[1] == "" ? REAL_MAX  : atoi(range_vals[1].c_str()));
+            Real min_score = (range_vals[0] == "" ? -REAL_MAX : lexical_cast<Real>(range_vals[0]));
+            Real max_score = (range_vals[1] == "" ? REAL_MAX  : lexical_cast<Real>(range_vals[1]));
             tune->SetRange(id, min_score, max_score);
         }
     }
diff --git a/src/lib/travatar-runner.cc b/src/lib/travatar-runner.cc
index f5a1ed8..0bf6c53 100644
--- a/src/lib/travatar-runner.cc
+++ b/src/lib/travatar-runner.cc
@@ -25,6 +25,7 @@
 #include <travatar/config-travatar-runner.h>
 #include <lm/model.hh>
 #include <boost/shared_ptr.hpp>
+#include <boost/lexical_cast.hpp>
 #include <boost/scoped_ptr.hpp>
 // #include <boost/algorithm/string.hpp>
 #include <fstream>
@@ -244,8 +245,8 @@ void TravatarRunner::Run(const ConfigTravatarRunner & config) {
                 if(range_vals.size() != 2 && range_vals.size() != 3)
                     THROW_ERROR("Weight ranges must be in the format MIN|MAX[|NAME]");
                 WordId id = (range_vals.size() == 3 ? Dict::WID(range_vals[2]) : -1);
-                Real min_score = (range_vals[0] == "" ? -REAL_MAX : atoi(range_vals[0].c_str()));
-                Real max_score = (range_vals[1] == "" ? REAL_MAX  : atoi(range_vals[1].c_str()));
+                Real min_score = (range_vals[0] == "" ? -REAL_MAX : lexical_cast<Real>(range_vals[0]));
+                Real max_score = (range_vals[1] == "" ? REAL_MAX  : lexical_cast<Real>(range_vals[1]));
                 weights_->SetRange(id, min_score, max_score);
             }
         }
-- 
2.43.0


From 7d805940bedbce4af0983c56f4dbe9e68344bf77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:54 +0000
Subject: [PATCH 074/123] fix: line search could step between crossings that
 differ only by rounding

---
 src/lib/tune-mert.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/tune-mert.cc b/src/lib/tune-mert.cc
index 43d5d5d..fa57132 100644
--- a/src/lib/tune-mert.cc
+++ b/src/lib/tune-mert.cc
@@ -1,4 +1,5 @@
 #include <cfloat>
+#include <cmath>
 #include <map>
 #include <boost/foreach.hpp>
 #include <boost/shared_ptr.hpp>
@@ -58,6 +59,7 @@ LineSearchResult TuneMert::LineSearch(
     // Find the place with the best score on the plane
     ScoredSpan best_span(Span(-REAL_MAX, -REAL_MAX), base_stats);
     Real best_score = -REAL_MAX;
+    bool found = false, best_wide = false;
     EvalStatsPtr curr_stats = base_stats->Clone(), zero_stats;
     Real last_bound = -REAL_MAX;
     BOOST_FOREACH(const DoublePair & boundary, boundaries) {
@@ -71,9 +73,13 @@ LineSearchResult TuneMert::LineSearch(
         bool in_range = (last_bound < range.second && boundary.first > range.first);
         if(range.first == range.second)
             in_range = (last_bound <= range.second && boundary.first >= range.first);
-        if(in_range && (curr_score > best_score || range.first == range.second)) {
+        // Spans between boundaries that are the same up to rounding can not be reached
+        bool wide = range.first == range.second ||
+            boundary.first - last_bound > 1e-10 * max(fabs(boundary.first), fabs(last_bound));
+        if(in_range && (!found || (wide && (!best_wide || curr_score > best_score || range.first == range.second)))) {
             best_span = ScoredSpan(Span(last_bound, boundary.first), curr_stats->Clone());
             best_score = curr_score;
+            best_wide = wide; found = true;
         }
         PRINT_DEBUG("bef: " << boundary << " curr_stats=" << *curr_stats << endl, 4);
         curr_stats->PlusEquals(*boundary.second);
-- 
2.43.0


From fbfbfb36782dda90a1a16f3f3654b03c8ec27357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:54 +0000
Subject: [PATCH 075/123] fix: batch tuning restarted from weights outside of
 their permitted ranges

---
 src/include/travatar/tune.h  |  3 +++
 src/lib/batch-tune-runner.cc | 11 ++++++++++-
 src/lib/tune.cc              | 20 ++++++++++++++++++++
 3 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/include/travatar/tune.h b/src/include/travatar/tune.h
index 6a6c969..a88c783 100644
--- a/src/include/travatar/tune.h
+++ b/src/include/travatar/tune.h
@@ -38,6 +38,9 @@ public:
                                 const SparseMap & weights,
                                 const SparseMap & gradient);
 
+    // Move all weights into their ranges
+    void EnforceRanges(SparseMap & weights) const;
+
     // Whether any weight is restricted to a range
     bool HasRanges() const;
 
diff --git a/src/lib/batch-tune-runner.cc b/src/lib/batch-tune-runner.cc
index f5280c5..c5d8c9d 100644
--- a/src/lib/batch-tune-runner.cc
+++ b/src/lib/batch-tune-runner.cc
@@ -205,6 +205,13 @@ void BatchTuneRunner::DoTuning(const ConfigBatchTune & config) {
         else          LoadForests(sys_in, *tune);
     }
 
+    // Start tuning from weights that are in their ranges
+    SparseMap zero_weights;
+    if(tune->HasRanges()) {
+        tune->EnforceRanges(weights);
+        tune->EnforceRanges(zero_weights);
+    }
+
     // If there is any shared initialization to be done, do it here
     tune->Init(weights);
 
@@ -218,7 +225,7 @@ void BatchTuneRunner::DoTuning(const ConfigBatchTune & config) {
     pool.Submit(tasks[0].get());
 
     // Set up zeroed weights
-    tasks[1] = boost::shared_ptr<BatchTuneRunnerTask>(new BatchTuneRunnerTask(1, "Zero", *tune, SparseMap()));
+    tasks[1] = boost::shared_ptr<BatchTuneRunnerTask>(new BatchTuneRunnerTask(1, "Zero", *tune, zero_weights));
     pool.Submit(tasks[1].get());
     
     // Randomize if necessary
@@ -232,6 +239,8 @@ void BatchTuneRunner::DoTuning(const ConfigBatchTune & config) {
         BOOST_FOREACH(SparseMap::value_type & rw, rand_weights)
             if(rw.first != tune->GetScaleId())
                 rw.second *= rand()/(Real)RAND_MAX;
+        if(tune->HasRanges())
+            tune->EnforceRanges(rand_weights);
         ostringstream oss; oss << "Rand " << i;
         tasks[i] = boost::shared_ptr<BatchTuneRunnerTask>(new BatchTuneRunnerTask(i, oss.str(), *tune, rand_weights));
         pool.Submit(tasks[i].get());
diff --git a/src/lib/tune.cc b/src/lib/tune.cc
index cd3fb1b..8b9930b 100644
--- a/src/lib/tune.cc
+++ b/src/lib/tune.cc
@@ -1,7 +1,9 @@
 
 #include <travatar/tune.h>
 #include <travatar/dict.h>
+#include <travatar/tuning-example.h>
 #include <boost/foreach.hpp>
+#include <set>
 
 using namespace std;
 using namespace travatar;
@@ -31,6 +33,24 @@ pair<Real,Real> Tune::FindGradientRange(const SparseMap & weights, const SparseM
     return ret;
 }
 
+// Move all weights, including those that are zero, into their ranges
+void Tune::EnforceRanges(SparseMap & weights) const {
+    set<WordId> feats;
+    BOOST_FOREACH(const boost::shared_ptr<TuningExample> & examp, examps_)
+        examp->CountWeights(feats);
+    BOOST_FOREACH(const SparseMap::value_type & val, weights)
+        feats.insert(val.first);
+    feats.erase(scale_id_);
+    BOOST_FOREACH(WordId feat, feats) {
+        RangeMap::const_iterator it = ranges_.find(feat);
+        if(it == ranges_.end()) it = ranges_.find(-1);
+        SparseMap::const_iterator wit = weights.find(feat);
+        Real old_val = (wit == weights.end() ? 0.0 : wit->second);
+        Real new_val = max(it->second.first, min(old_val, it->second.second));
+        if(new_val != old_val) weights[feat] = new_val;
+    }
+}
+
 bool Tune::HasRanges() const {
     BOOST_FOREACH(const RangeMap::value_type & range, ranges_)
         if(range.second.first != -REAL_MAX || range.second.second != REAL_MAX)
-- 
2.43.0


From 0b699a9727013be81f962c0037d9b498e183947e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:45 +0000
Subject: [PATCH 076/123] fix: L-BFGS tuning summed up the gradients of all
 points visited

---
 src/lib/gradient-xeval.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/gradient-xeval.cc b/src/lib/gradient-xeval.cc
index ff1a78b..9e0a5e0 100644
--- a/src/lib/gradient-xeval.cc
+++ b/src/lib/gradient-xeval.cc
@@ -3,6 +3,7 @@
 #include <travatar/eval-measure-bleu.h>
 #include <travatar/softmax.h>
 #include <boost/foreach.hpp>
+#include <algorithm>
 #include <cmath>
 
 using namespace std;
@@ -132,6 +133,9 @@ void GradientXeval::CalcBleuGradient(
 
 Real GradientXeval::CalcGradient(size_t n, const Real * x, Real * g) const {
 
+    // L-BFGS passes in the gradient of the previous point
+    std::fill(g, g+n, 0.0);
+
     // Get the scaling factor
     Real gamma = (dense_scale_id_ == -1 ? 1.0 : x[dense_scale_id_]);
     if(gamma == 0.0) gamma = 1.0;
-- 
2.43.0


From fa049fc16b284b766d03916ea173a71b5e6b94f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:45 +0000
Subject: [PATCH 077/123] fix: expected number of sentences was cut to a whole
 number in gradients

---
 src/include/travatar/eval-measure.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/travatar/eval-measure.h b/src/include/travatar/eval-measure.h
index 7734e68..c745528 100644
--- a/src/include/travatar/eval-measure.h
+++ b/src/include/travatar/eval-measure.h
@@ -72,7 +72,7 @@ public:
     virtual std::string GetIdString() const { return "AVG"; }
     // Getters
     Real GetVal() const { return vals_[0]; }
-    int GetDenom() const { return vals_[1]; }
+    Real GetDenom() const { return vals_[1]; }
 private:
 };
 
-- 
2.43.0


From 229e5a69ace475a154c3fd602d6925d21b0adfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:45 +0000
Subject: [PATCH 078/123] fix: gradient of smoothed BLEU did not match the
 score

---
 src/include/travatar/eval-measure-bleu.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/include/travatar/eval-measure-bleu.h b/src/include/travatar/eval-measure-bleu.h
index fa19cd1..4b4291f 100644
--- a/src/include/travatar/eval-measure-bleu.h
+++ b/src/include/travatar/eval-measure-bleu.h
@@ -50,9 +50,10 @@ public:
     Real GetAvgLogPrecision() const;
     Real GetLengthRatio() const;
     int GetNgramOrder() const { return vals_.size()/3; }
-    Real GetMatch(int n) const { return vals_[3*n]+smooth_; }
-    Real GetSysCount(int n) const { return vals_[3*n+1]+smooth_; }
-    Real GetRefCount(int n) const { return vals_[3*n+2]+smooth_; }
+    // As in the score, unigrams are not smoothed
+    Real GetMatch(int n) const { return vals_[3*n]+(n ? smooth_ : 0); }
+    Real GetSysCount(int n) const { return vals_[3*n+1]+(n ? smooth_ : 0); }
+    Real GetRefCount(int n) const { return vals_[3*n+2]+(n ? smooth_ : 0); }
 private:
     Real smooth_;
     Real prec_weight_;
-- 
2.43.0


From a82c94e88a148feb37375e2ed95e8ed451474c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:45 +0000
Subject: [PATCH 079/123] fix: entropy regularization and its gradient had
 opposite signs

---
 src/lib/gradient-xeval.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/gradient-xeval.cc b/src/lib/gradient-xeval.cc
index 9e0a5e0..a5a66b6 100644
--- a/src/lib/gradient-xeval.cc
+++ b/src/lib/gradient-xeval.cc
@@ -213,7 +213,7 @@ Real GradientXeval::CalcGradient(size_t n, const Real * x, Real * g) const {
             for(int k = 0; k < K; k++) {
                 Real my_log2 = max(LogZero(p_i_k[i][k])/log2,-REAL_MAX);
                 Real val = (my_log2 + 1) * p_i_k[i][k];
-                score += my_log2 * p_i_k[i][k] * ent_coeff_;
+                score -= my_log2 * p_i_k[i][k] * ent_coeff_;
                 for(int kprime = 0; kprime < K; kprime++)
                     ps[kprime] += val * ((kprime == k ? 1.0 : 0.0) - p_i_k[i][kprime]);
             }
-- 
2.43.0


From f8e755ceef09c916c49e4ca1054714730530c460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:45 +0000
Subject: [PATCH 080/123] fix: gradient of inverse TER had the wrong sign

---
 src/include/travatar/eval-measure-ter.h | 1 +
 src/include/travatar/eval-measure.h     | 2 ++
 src/lib/gradient-xeval.cc               | 2 +-
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/include/travatar/eval-measure-ter.h b/src/include/travatar/eval-measure-ter.h
index 98f3744..c8cfb1a 100644
--- a/src/include/travatar/eval-measure-ter.h
+++ b/src/include/travatar/eval-measure-ter.h
@@ -19,6 +19,7 @@ public:
         Real score = vals_[1] ? vals_[0]/vals_[1] : 0;
         return inverse_ ? 1-score : score;
     }
+    virtual Real GetSlope() const { return inverse_ ? -1.0 : 1.0; }
     EvalStatsPtr Clone() const { return EvalStatsPtr(new EvalStatsTer(vals_[0], vals_[1], inverse_)); }
 protected:
     bool inverse_;
diff --git a/src/include/travatar/eval-measure.h b/src/include/travatar/eval-measure.h
index c745528..780d300 100644
--- a/src/include/travatar/eval-measure.h
+++ b/src/include/travatar/eval-measure.h
@@ -73,6 +73,8 @@ public:
     // Getters
     Real GetVal() const { return vals_[0]; }
     Real GetDenom() const { return vals_[1]; }
+    // By how much the score changes when the average does
+    virtual Real GetSlope() const { return 1.0; }
 private:
 };
 
diff --git a/src/lib/gradient-xeval.cc b/src/lib/gradient-xeval.cc
index a5a66b6..fd89d24 100644
--- a/src/lib/gradient-xeval.cc
+++ b/src/lib/gradient-xeval.cc
@@ -39,7 +39,7 @@ void GradientXeval::CalcAvgGradient(
             EvalStatsAverage * stats_i_k_avg = (EvalStatsAverage*)all_stats_[i][k].get();
             PRINT_DEBUG("Stats i=" << i << ", k=" << k << ": " << stats_i_k_avg->ConvertToString() << endl, 4);
             // Calculate the derivative of xeval
-            Real d_xeval_logpik = p_i_k[i][k]*stats_i_k_avg->GetVal()/stats_avg->GetDenom();
+            Real d_xeval_logpik = p_i_k[i][k]*stats_i_k_avg->GetVal()/stats_avg->GetDenom()*stats_avg->GetSlope();
             // Now multiply this value for every k'
             for(int kprime = 0; kprime < K; kprime++)
                 d_xeval_dsikprime[kprime] += 
-- 
2.43.0


From 955f1357c6d98014ebfaf15022e006b3cede713b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:22 +0000
Subject: [PATCH 081/123] fix: gradient of BLEU was not a number for empty
 output

---
 src/lib/gradient-xeval.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/gradient-xeval.cc b/src/lib/gradient-xeval.cc
index fd89d24..333611f 100644
--- a/src/lib/gradient-xeval.cc
+++ b/src/lib/gradient-xeval.cc
@@ -78,7 +78,8 @@ void GradientXeval::CalcBleuGradient(
     // This is used in the calculation of dB/log(p_{i,k})
     PRINT_DEBUG("P=" << P << ", eP=" << eP << ", B=" << B << ", Bprime=" << Bprime << ", R=" << R << ", e10kmR="<<e10kmR<<", emR=" << emR << endl, 3);
     // The left and right constants
-    Real left = eP * Bprime * -R;
+    // (the score of empty output does not depend on the length)
+    Real left = (eP == 0 || Bprime == 0 ? 0 : eP * Bprime * -R);
     Real right = eP * B / stats_bleu->GetNgramOrder();
     // The scaling constant and its
     Real gamma = (dense_scale_id_ == -1 ? 1.0 : x[dense_scale_id_]);
-- 
2.43.0


From e254c3c8d519b506f8c9d8955888b4704c7d6523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:22 +0000
Subject: [PATCH 082/123] fix: gradient of BLEU ignored the precision weight,
 mean and brevity options

---
 src/include/travatar/eval-measure-bleu.h |  4 ++++
 src/lib/gradient-xeval.cc                | 28 ++++++++++++++++++------
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/include/travatar/eval-measure-bleu.h b/src/include/travatar/eval-measure-bleu.h
index 4b4291f..1368466 100644
--- a/src/include/travatar/eval-measure-bleu.h
+++ b/src/include/travatar/eval-measure-bleu.h
@@ -49,6 +49,10 @@ public:
     BleuReport CalcBleuReport() const;
     Real GetAvgLogPrecision() const;
     Real GetLengthRatio() const;
+    // The denominator of the n-gram precision
+    Real GetTotalCount(int n) const { return prec_weight_*GetSysCount(n) + (1-prec_weight_)*GetRefCount(n); }
+    BleuMean GetMean() const { return mean_; }
+    bool GetCalcBrev() const { return calc_brev_; }
     int GetNgramOrder() const { return vals_.size()/3; }
     // As in the score, unigrams are not smoothed
     Real GetMatch(int n) const { return vals_[3*n]+(n ? smooth_ : 0); }
diff --git a/src/lib/gradient-xeval.cc b/src/lib/gradient-xeval.cc
index 333611f..9164e39 100644
--- a/src/lib/gradient-xeval.cc
+++ b/src/lib/gradient-xeval.cc
@@ -68,19 +68,32 @@ void GradientXeval::CalcBleuGradient(
     // Overall stats
     EvalStatsBleu * stats_bleu = (EvalStatsBleu*)stats.get();
     int N = p_i_k.size();
-    Real P = stats_bleu->GetAvgLogPrecision();
+    int order = stats_bleu->GetNgramOrder();
+    vector<Real> precs = stats_bleu->CalcBleuReport().scores;
+    Real P = 0, prec_sum = 0;
+    BOOST_FOREACH(Real prec, precs) {
+        P += LogZero(prec) / order;
+        prec_sum += prec;
+    }
+    if(stats_bleu->GetMean() == ARITHMETIC)
+        P = LogZero(prec_sum / order);
     Real eP = exp(P);
+    // The effect of each log precision on the log of their mean
+    vector<Real> share(order, 1.0/order);
+    if(stats_bleu->GetMean() == ARITHMETIC)
+        for(int n = 0; n < order; n++)
+            share[n] = DivideZero(precs[n], prec_sum);
     Real R = 1.0/stats_bleu->GetLengthRatio();
     Real mR = 1-R;
     Real emR = exp(mR), e10kmR = std::min(REAL_MAX,exp(10000*mR));
-    Real B = (emR-1)/(e10kmR+1) + 1;
-    Real Bprime = (emR-(emR-1)*10000*(e10kmR/(1+e10kmR)))/(1+e10kmR);
+    Real B = !stats_bleu->GetCalcBrev() ? 1 : (emR-1)/(e10kmR+1) + 1;
+    Real Bprime = !stats_bleu->GetCalcBrev() ? 0 : (emR-(emR-1)*10000*(e10kmR/(1+e10kmR)))/(1+e10kmR);
     // This is used in the calculation of dB/log(p_{i,k})
     PRINT_DEBUG("P=" << P << ", eP=" << eP << ", B=" << B << ", Bprime=" << Bprime << ", R=" << R << ", e10kmR="<<e10kmR<<", emR=" << emR << endl, 3);
     // The left and right constants
     // (the score of empty output does not depend on the length)
     Real left = (eP == 0 || Bprime == 0 ? 0 : eP * Bprime * -R);
-    Real right = eP * B / stats_bleu->GetNgramOrder();
+    Real right = eP * B;
     // The scaling constant and its
     Real gamma = (dense_scale_id_ == -1 ? 1.0 : x[dense_scale_id_]);
     if(gamma == 0.0) gamma = 1.0;
@@ -97,9 +110,10 @@ void GradientXeval::CalcBleuGradient(
             Real pik = p_i_k[i][k];
             // Calculate the derivative of exp(P) with respect to log(p_{i,k})
             Real my_right = 0;
-            for(int n = 0; n < stats_bleu->GetNgramOrder(); n++)
-                my_right += DivideZero(stats_i_k_bleu->GetMatch(n)*pik,stats_bleu->GetMatch(n)) -
-                            DivideZero(stats_i_k_bleu->GetSysCount(n)*pik,stats_bleu->GetSysCount(n));
+            for(int n = 0; n < order; n++)
+                my_right += share[n] * (
+                            DivideZero(stats_i_k_bleu->GetMatch(n)*pik,stats_bleu->GetMatch(n)) -
+                            DivideZero(stats_i_k_bleu->GetTotalCount(n)*pik,stats_bleu->GetTotalCount(n)));
             my_right *= right;
             PRINT_DEBUG("my_right: " << my_right << endl, 3);
             // Calculate the derivative of B with respect to log(p_{i,k})
-- 
2.43.0


From 2a803776ee6b63246cae5f753c6fbacbf98b63c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:20 +0000
Subject: [PATCH 083/123] fix: gradients were not a number when all references
 are empty

---
 src/lib/gradient-xeval.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/gradient-xeval.cc b/src/lib/gradient-xeval.cc
index 9164e39..0efaf4e 100644
--- a/src/lib/gradient-xeval.cc
+++ b/src/lib/gradient-xeval.cc
@@ -39,7 +39,7 @@ void GradientXeval::CalcAvgGradient(
             EvalStatsAverage * stats_i_k_avg = (EvalStatsAverage*)all_stats_[i][k].get();
             PRINT_DEBUG("Stats i=" << i << ", k=" << k << ": " << stats_i_k_avg->ConvertToString() << endl, 4);
             // Calculate the derivative of xeval
-            Real d_xeval_logpik = p_i_k[i][k]*stats_i_k_avg->GetVal()/stats_avg->GetDenom()*stats_avg->GetSlope();
+            Real d_xeval_logpik = DivideZero(p_i_k[i][k]*stats_i_k_avg->GetVal(),stats_avg->GetDenom())*stats_avg->GetSlope();
             // Now multiply this value for every k'
             for(int kprime = 0; kprime < K; kprime++)
                 d_xeval_dsikprime[kprime] += 
@@ -83,7 +83,7 @@ void GradientXeval::CalcBleuGradient(
     if(stats_bleu->GetMean() == ARITHMETIC)
         for(int n = 0; n < order; n++)
             share[n] = DivideZero(precs[n], prec_sum);
-    Real R = 1.0/stats_bleu->GetLengthRatio();
+    Real R = (stats_bleu->GetSysCount(0) == 0 && stats_bleu->GetRefCount(0) == 0 ? 1.0 : 1.0/stats_bleu->GetLengthRatio());
     Real mR = 1-R;
     Real emR = exp(mR), e10kmR = std::min(REAL_MAX,exp(10000*mR));
     Real B = !stats_bleu->GetCalcBrev() ? 1 : (emR-1)/(e10kmR+1) + 1;
-- 
2.43.0


From d229df70bbd306197911045f7349608f080138e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:17 +0000
Subject: [PATCH 084/123] fix: new weights were regularized for the updates
 before they existed

---
 src/lib/weights-adagrad.cc    | 1 +
 src/lib/weights-perceptron.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/lib/weights-adagrad.cc b/src/lib/weights-adagrad.cc
index 5ed5d5b..4ff8f61 100644
--- a/src/lib/weights-adagrad.cc
+++ b/src/lib/weights-adagrad.cc
@@ -18,6 +18,7 @@ void WeightsAdagrad::Update(
             varinv_[change_val.first] += change_val.second * change_val.second;
             new_val += rate_ * sqrt(1/varinv_[change_val.first]) * change_val.second;
             current_[change_val.first] = new_val;
+            last_update_[change_val.first] = curr_iter_;
         }
     }
     PRINT_DEBUG(current_ << std::endl, 2);
diff --git a/src/lib/weights-perceptron.cc b/src/lib/weights-perceptron.cc
index 4be738e..f5c7b09 100644
--- a/src/lib/weights-perceptron.cc
+++ b/src/lib/weights-perceptron.cc
@@ -29,6 +29,7 @@ void WeightsPerceptron::Update(
             Real new_val = GetCurrent(change_val.first) + change_val.second * rate_;
             // And ensure we are in the correct range
             current_[change_val.first] = InRange(new_val, GetRange(change_val.first));
+            last_update_[change_val.first] = curr_iter_;
         }
     }
     curr_iter_++;
-- 
2.43.0


From e2a4fb4b64b134d7d2a4266459156f24509752b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:17 +0000
Subject: [PATCH 085/123] fix: adagrad updates left the permitted range of
 weights

---
 src/lib/weights-adagrad.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/weights-adagrad.cc b/src/lib/weights-adagrad.cc
index 4ff8f61..4617358 100644
--- a/src/lib/weights-adagrad.cc
+++ b/src/lib/weights-adagrad.cc
@@ -4,6 +4,10 @@
 using namespace std;
 using namespace travatar;
 
+inline Real InRange(Real val, pair<Real,Real> range) {
+    return min(max(val,range.first), range.second);
+}
+
 // The pairwise weight update rule
 void WeightsAdagrad::Update(
     const SparseVector & oracle, Real oracle_score, Real oracle_eval,
@@ -17,7 +21,7 @@ void WeightsAdagrad::Update(
             Real new_val = GetCurrent(change_val.first);
             varinv_[change_val.first] += change_val.second * change_val.second;
             new_val += rate_ * sqrt(1/varinv_[change_val.first]) * change_val.second;
-            current_[change_val.first] = new_val;
+            current_[change_val.first] = InRange(new_val, GetRange(change_val.first));
             last_update_[change_val.first] = curr_iter_;
         }
     }
-- 
2.43.0


From 62198945af9d4b6fe4b361cdd4bda54b48586fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:17 +0000
Subject: [PATCH 086/123] fix: reading averaged perceptron weights changed
 their average

---
 src/lib/weights-average-perceptron.cc | 24 +++---------------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/src/lib/weights-average-perceptron.cc b/src/lib/weights-average-perceptron.cc
index 38f50c6..5ef6f30 100644
--- a/src/lib/weights-average-perceptron.cc
+++ b/src/lib/weights-average-perceptron.cc
@@ -12,9 +12,7 @@ inline Real InRange(Real val, pair<Real,Real> range) {
 // Get the final values of the weights
 const SparseMap & WeightsAveragePerceptron::GetFinal() {
     if(curr_iter_) {
-        // Getting a value removes it from the map if it is zero, so iterate over a copy
-        SparseMap current(current_);
-        BOOST_FOREACH(const SparseMap::value_type & final_val, current) {
+        BOOST_FOREACH(const SparseMap::value_type & final_val, current_) {
             // Save the old value and get the new value in the range
             int prev_iter = last_update_[final_val.first];
             Real avg_val = final_[final_val.first];
@@ -65,22 +63,6 @@ Real WeightsAveragePerceptron::GetCurrent(const SparseMap::key_type & key) {
     // Non-existant weights are zero
     if(it == current_.end())
         return 0.0;
-    // Find the difference between the last update
-    int diff = curr_iter_ - last_update_[key];
-    if(diff != 0) {
-        Real reg = diff*l1_coeff_;
-        // Find the value
-        if(it->second > 0)
-            it->second = max(it->second-reg,(Real)0.0);
-        else
-            it->second = min(it->second+reg,(Real)0.0);
-        it->second = InRange(it->second, GetRange(key));
-        last_update_[key] = curr_iter_;
-        if(it->second == 0) {
-            current_.erase(it);
-            return 0.0;
-        }
-    }
-    // std::cerr << " RET: " << it->second << std::endl;
-    return it->second;
+    // Updates happen at known times, and only they change the value and its average
+    return (curr_iter_ ? InRange(it->second, GetRange(key)) : it->second);
 }
-- 
2.43.0


From 8cdd507faf18e419fbabf2d0e3eaf87eedd4ab2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:17 +0000
Subject: [PATCH 087/123] fix: the averaged perceptron ignored the learning
 rate

---
 src/lib/weights-average-perceptron.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/weights-average-perceptron.cc b/src/lib/weights-average-perceptron.cc
index 5ef6f30..fe00da4 100644
--- a/src/lib/weights-average-perceptron.cc
+++ b/src/lib/weights-average-perceptron.cc
@@ -42,7 +42,7 @@ void WeightsAveragePerceptron::Update(
             int prev_iter = last_update_[change_val.first];
             Real avg_val = final_[change_val.first];
             Real old_val = GetCurrent(change_val.first);
-            Real new_val = InRange(old_val + change_val.second, GetRange(change_val.first));
+            Real new_val = InRange(old_val + change_val.second * rate_, GetRange(change_val.first));
             current_[change_val.first] = new_val;
             // The new average is equal to (avg_val*prev_iter + old_val*(curr_iter_-prev_iter-1)+new_val)/curr_iter_;
             final_[change_val.first] = (avg_val*prev_iter + old_val*(curr_iter_-prev_iter-1)+new_val)/curr_iter_;
-- 
2.43.0


From a24fbe44441251f0859ee0c5dd0c9067e33bbf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:17 +0000
Subject: [PATCH 088/123] fix: the averaged perceptron was updated by pairs
 that do not violate the margin

---
 src/lib/weights-average-perceptron.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/weights-average-perceptron.cc b/src/lib/weights-average-perceptron.cc
index fe00da4..d52845c 100644
--- a/src/lib/weights-average-perceptron.cc
+++ b/src/lib/weights-average-perceptron.cc
@@ -31,7 +31,7 @@ void WeightsAveragePerceptron::Update(
     const SparseVector & oracle, Real oracle_model, Real oracle_eval,
     const SparseVector & system, Real system_model, Real system_eval) {
     ++curr_iter_;
-    if(system_eval < oracle_eval) {
+    if(system_eval < oracle_eval && system_model + (oracle_eval-system_eval)*margin_scale_ >= oracle_model) {
         if(l1_coeff_ != 0) THROW_ERROR("Non-zero regularization in averaged perceptron not accounted for yet");
         SparseVector change = (oracle - system);
         PRINT_DEBUG("ORACLE: " << Dict::PrintSparseVector(oracle) << endl << 
-- 
2.43.0


From 7b644ac495130bcc787b7f3d59d80ab2bf2af485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:17 +0000
Subject: [PATCH 089/123] fix: online updates moved weights towards hypotheses
 that are not better

---
 src/lib/weights-adagrad.cc    | 2 +-
 src/lib/weights-perceptron.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/weights-adagrad.cc b/src/lib/weights-adagrad.cc
index 4617358..661fb44 100644
--- a/src/lib/weights-adagrad.cc
+++ b/src/lib/weights-adagrad.cc
@@ -14,7 +14,7 @@ void WeightsAdagrad::Update(
     const SparseVector & system, Real system_score, Real system_eval
 ) {
     curr_iter_++;
-    if(system_score + (oracle_eval-system_eval)*margin_scale_ >= oracle_score) {
+    if(system_eval < oracle_eval && system_score + (oracle_eval-system_eval)*margin_scale_ >= oracle_score) {
         SparseVector change = oracle - system;
         BOOST_FOREACH(const SparsePair & change_val, change.GetImpl()) {
             if(change_val.second == 0) continue;
diff --git a/src/lib/weights-perceptron.cc b/src/lib/weights-perceptron.cc
index f5c7b09..b8f2912 100644
--- a/src/lib/weights-perceptron.cc
+++ b/src/lib/weights-perceptron.cc
@@ -22,7 +22,7 @@ void WeightsPerceptron::Update(
     const SparseVector & oracle, Real oracle_score, Real oracle_loss,
     const SparseVector & system, Real system_score, Real system_loss
 ) {
-    if(system_score >= oracle_score) {
+    if(system_loss < oracle_loss && system_score >= oracle_score) {
         SparseVector change = (oracle - system);
         BOOST_FOREACH(const SparsePair & change_val, change.GetImpl()) {
             // Update the value
-- 
2.43.0


From 4dfd68c2b825b5ead497e2de549f85d926c02f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:17 +0000
Subject: [PATCH 090/123] fix: online tuning scored the source instead of the
 hypothesis

---
 src/lib/weights.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/weights.cc b/src/lib/weights.cc
index 08a0a5e..c489821 100644
--- a/src/lib/weights.cc
+++ b/src/lib/weights.cc
@@ -33,7 +33,7 @@ void Weights::Adjust(const Sentence & src,
         std::pair<Real,Real> score(path->GetScore(), -REAL_MAX);
         BOOST_FOREACH(const Sentence & ref, refs)
             score.second = std::max(
-                            eval.CalculateStats(ref, src)->ConvertToScore(),
+                            eval.CalculateStats(ref, my_hyp)->ConvertToScore(),
                             score.second);
         scores.push_back(score);
         features.push_back(new SparseVector(path->GetFeatures()));
-- 
2.43.0


From d3e97f2c4f3afbe3e0d8f41902801f3e6834c27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:17 +0000
Subject: [PATCH 091/123] fix: online tuning crashed on sentences that have no
 translation

---
 src/lib/weights-pairwise.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/weights-pairwise.cc b/src/lib/weights-pairwise.cc
index c5f170e..c974651 100644
--- a/src/lib/weights-pairwise.cc
+++ b/src/lib/weights-pairwise.cc
@@ -26,6 +26,8 @@ void WeightsPairwise::Adjust(const Sentence & src,
             oracle_eval = my_eval;
         }
     }
+    // Nothing can be learned from sentences without translations
+    if(oracle == -1) return;
     // Update given the oracle
     Real oracle_score = nbest[oracle]->GetScore();
     Real sys_score = nbest[0]->GetScore();
-- 
2.43.0


From 3b3ac4bd959e4a75006d0a1864603c3a49678f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:17 +0000
Subject: [PATCH 092/123] fix: online batch tuning ignored the weights to start
 from

---
 src/lib/tune-online.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/tune-online.cc b/src/lib/tune-online.cc
index 8e47613..1287b05 100644
--- a/src/lib/tune-online.cc
+++ b/src/lib/tune-online.cc
@@ -50,6 +50,9 @@ Real TuneOnline::RunTuning(SparseMap & kv) {
         THROW_ERROR("Unknown update type: " << update_);
     }
 
+    // Start at the weights that were specified
+    weights->SetCurrent(kv);
+
     if(algorithm_ == "pro") {
         boost::shared_ptr<Weights> old_weights = weights;
         WeightsOnlinePro * wop = new WeightsOnlinePro(weights);
-- 
2.43.0


From 1289eac4c3b3a2cfa86910d128015cee9323d32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:17 +0000
Subject: [PATCH 093/123] fix: online batch tuning did not report the score of
 the weights it returns

---
 src/lib/tune-online.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/tune-online.cc b/src/lib/tune-online.cc
index 1287b05..e3fd5e1 100644
--- a/src/lib/tune-online.cc
+++ b/src/lib/tune-online.cc
@@ -122,9 +122,10 @@ Real TuneOnline::RunTuning(SparseMap & kv) {
 
     // Finally, update the stats with the actual weights
     kv = weights->GetFinal();
+    Weights final_weights(kv);
     total_stats.reset((EvalStats*)NULL);
     BOOST_FOREACH(const boost::shared_ptr<TuningExample> & examp, examps_) {
-        const ExamplePair & expair = examp->CalculateModelHypothesis(*weights);
+        const ExamplePair & expair = examp->CalculateModelHypothesis(final_weights);
         if(total_stats.get()==NULL) total_stats=expair.second->Clone();
         else total_stats->PlusEquals(*expair.second);
     }
-- 
2.43.0


From dcc82b90063cf526607643624669461aca783ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:17 +0000
Subject: [PATCH 094/123] fix: pairwise sampling ignored the random seed

---
 src/lib/weights-online-pro.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lib/weights-online-pro.cc b/src/lib/weights-online-pro.cc
index 0a21c3b..c16f103 100644
--- a/src/lib/weights-online-pro.cc
+++ b/src/lib/weights-online-pro.cc
@@ -7,7 +7,6 @@
 #include <boost/random/mersenne_twister.hpp>
 #include <cstdlib>
 #include <algorithm>
-#include <ctime>
 
 using namespace std;
 using namespace boost;
@@ -21,7 +20,7 @@ using namespace travatar;
 void WeightsOnlinePro::AdjustNbest(
         const std::vector<std::pair<Real,Real> > & scores,
         const std::vector<SparseVector*> & features) {
-    boost::mt19937 gen(time(0));
+    boost::mt19937 gen(rand());
     // Sampling algorithm 1
     vector<pair<Real,pair<int,int> > > samples;
     for(int i = 0; i < num_samples_; i++) {
-- 
2.43.0


From e0ae343de7e3cfa667e7c6b56ab2ba46d40b4bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:17 +0000
Subject: [PATCH 095/123] fix: online tuning decoded with outdated weights of
 language models and regularized features

---
 src/include/travatar/travatar-runner.h |  1 +
 src/lib/travatar-runner.cc             | 13 +++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/src/include/travatar/travatar-runner.h b/src/include/travatar/travatar-runner.h
index 8024e30..9f2ad06 100644
--- a/src/include/travatar/travatar-runner.h
+++ b/src/include/travatar/travatar-runner.h
@@ -79,6 +79,7 @@ public:
     bool GetNbestTree() const { return nbest_tree_; }
     int GetThreads() const { return threads_; }
     bool GetDoTuning() const { return do_tuning_; } 
+    void UpdateWeights();
 
 private:
 
diff --git a/src/lib/travatar-runner.cc b/src/lib/travatar-runner.cc
index 0bf6c53..1c2a8d2 100644
--- a/src/lib/travatar-runner.cc
+++ b/src/lib/travatar-runner.cc
@@ -120,6 +120,7 @@ void TravatarRunnerTask::Run() {
     }
     // { /* DEBUG */ JSONTreeIO io; io.WriteTree(*tree_graph_, cerr); cerr << endl; }
     boost::shared_ptr<HyperGraph> rule_graph(runner_->GetTM().TransformGraph(*tree_graph_));
+    if(runner_->GetDoTuning()) runner_->UpdateWeights();
     rule_graph->ScoreEdges(runner_->GetWeights());
     rule_graph->ResetViterbiScores();
 
@@ -441,6 +442,18 @@ void TravatarRunner::Run(const ConfigTravatarRunner & config) {
 }
 
 
+// Make sure that all parts of the decoder use the weights at this point of tuning
+void TravatarRunner::UpdateWeights() {
+    // Weights may be regularized lazily, and are up to date after getting the final ones
+    weights_->GetFinal();
+    BOOST_FOREACH(const boost::shared_ptr<GraphTransformer> & lm, lms_) {
+        LMComposer * composer = dynamic_cast<LMComposer*>(lm.get());
+        if(composer) composer->UpdateWeights(weights_->GetCurrent());
+    }
+    LookupTableCFGLM * cfg_tm = dynamic_cast<LookupTableCFGLM*>(tm_.get());
+    if(cfg_tm) cfg_tm->SetWeights(*weights_);
+}
+
 boost::shared_ptr<GraphTransformer> TravatarRunner::CreateLMComposer(
         const ConfigTravatarRunner & config, const vector<string> & lm_files,
         int pop_limit, const SparseMap & weights) {
-- 
2.43.0


From 5927a7fe8eeb77889bc8447cffd8a4c7448eda16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 096/123] fix: batch tuning set the random seed after it
 started to tune

---
 src/lib/batch-tune-runner.cc | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/lib/batch-tune-runner.cc b/src/lib/batch-tune-runner.cc
index c5d8c9d..5a4b6fe 100644
--- a/src/lib/batch-tune-runner.cc
+++ b/src/lib/batch-tune-runner.cc
@@ -215,18 +215,12 @@ void BatchTuneRunner::DoTuning(const ConfigBatchTune & config) {
     // If there is any shared initialization to be done, do it here
     tune->Init(weights);
 
-    // Build the thread pool
-    ThreadPool pool(threads, threads*5);
-    pool.SetDeleteTasks(false);
-    
     // Set up tasks for each amount of weights
     vector<boost::shared_ptr<BatchTuneRunnerTask> > tasks(runs);
     tasks[0] = boost::shared_ptr<BatchTuneRunnerTask>(new BatchTuneRunnerTask(0, "Init", *tune, weights));
-    pool.Submit(tasks[0].get());
 
     // Set up zeroed weights
     tasks[1] = boost::shared_ptr<BatchTuneRunnerTask>(new BatchTuneRunnerTask(1, "Zero", *tune, zero_weights));
-    pool.Submit(tasks[1].get());
     
     // Randomize if necessary
     if(config.GetInt("rand_seed") == 0)
@@ -243,8 +237,13 @@ void BatchTuneRunner::DoTuning(const ConfigBatchTune & config) {
             tune->EnforceRanges(rand_weights);
         ostringstream oss; oss << "Rand " << i;
         tasks[i] = boost::shared_ptr<BatchTuneRunnerTask>(new BatchTuneRunnerTask(i, oss.str(), *tune, rand_weights));
-        pool.Submit(tasks[i].get());
     }
+
+    // Build the thread pool, after the random seed is set and used here, as the tasks may use it too
+    ThreadPool pool(threads, threads*5);
+    pool.SetDeleteTasks(false);
+    for(int i = 0; i < runs; i++)
+        pool.Submit(tasks[i].get());
     pool.Stop(true);
 
     // Find the best result
-- 
2.43.0


From 6c567e3d55fccda0fcd1f09ca7da73bf7f5b4307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:51 +0000
Subject: [PATCH 097/123] fix: non-terminal IDs of rules could overflow

---
 src/lib/dict.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/dict.cc b/src/lib/dict.cc
index 5d2b7b5..b4a9b13 100644
--- a/src/lib/dict.cc
+++ b/src/lib/dict.cc
@@ -179,6 +179,7 @@ CfgData Dict::ParseAnnotatedWords(const std::string & str) {
             int end;
             for(end = 1; end < bs && buff[end] >= '0' && buff[end] <= '9'; end++);
             if(end == 1) THROW_ERROR("Bad rule string. All non-terminals must have an ID (e.g. 'x0') none was found (e.g. 'x'): " << str);
+            if(end > 6) THROW_ERROR("Bad rule string. The ID of non-terminal '" << buff << "' is too large: " << str);
             int id = lexical_cast<int>(buff.substr(1, end-1));
             data.words.push_back(-1 - id);
             if(end != bs) {
-- 
2.43.0


From 879c9cd98b1db21b54fed51fa941d4df6cbe3406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:51 +0000
Subject: [PATCH 098/123] fix: alignments without numbers were read as
 uninitialized values

---
 src/lib/alignment.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/alignment.cc b/src/lib/alignment.cc
index 3f9edee..b030d15 100644
--- a/src/lib/alignment.cc
+++ b/src/lib/alignment.cc
@@ -28,8 +28,9 @@ Alignment::AlignmentPair Alignment::SplitAlignment(const string & str) {
     if(left_right.size() != 2)
         THROW_ERROR("Bad alignment string (must be in the format \"LENGTH ||| FPOS1-EPOS1 FPOS1-EPOS1\"" << endl << str);
     AlignmentPair ret;
-    istringstream left(left_right[0]); left >> ret.first;
-    istringstream right(left_right[1]); right >> ret.second;
+    istringstream left(left_right[0]), right(left_right[1]);
+    if(!(left >> ret.first) || !(right >> ret.second))
+        THROW_ERROR("Bad alignment string (must be in the format \"LENGTH ||| FPOS1-EPOS1 FPOS1-EPOS1\"" << endl << str);
     return ret;
 }
 Alignment Alignment::FromString(const string & str) {
-- 
2.43.0


From 82b604f44921a8eefbca4a785bb9cfd49451cfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:19 +0000
Subject: [PATCH 099/123] fix: extractors read outside of sentences given
 alignments beyond them

---
 src/include/travatar/alignment.h   | 3 +++
 src/lib/alignment.cc               | 6 ++++++
 src/lib/forest-extractor-runner.cc | 3 +++
 src/lib/hiero-extractor-runner.cc  | 2 ++
 4 files changed, 14 insertions(+)

diff --git a/src/include/travatar/alignment.h b/src/include/travatar/alignment.h
index 1ee809d..8fde7ff 100644
--- a/src/include/travatar/alignment.h
+++ b/src/include/travatar/alignment.h
@@ -42,6 +42,9 @@ public:
 
     std::vector<std::set<int> > GetSrcAlignments() const;
 
+    // Throw an error if there are alignments outside of the sentences
+    void CheckLengths(int src_len, int trg_len) const;
+
 private:
 
     // Split a string in the form X-Y into an alignment pair
diff --git a/src/lib/alignment.cc b/src/lib/alignment.cc
index b030d15..9c6607c 100644
--- a/src/lib/alignment.cc
+++ b/src/lib/alignment.cc
@@ -49,6 +49,12 @@ void Alignment::AddAlignment(const AlignmentPair & al) {
     vec_.insert(al);
 }
 
+void Alignment::CheckLengths(int src_len, int trg_len) const {
+    BOOST_FOREACH(const AlignmentPair & al, vec_)
+        if(al.first < 0 || al.first >= src_len || al.second < 0 || al.second >= trg_len)
+            THROW_ERROR("Alignment " << al.first << "-" << al.second << " is not within the sentences of length " << src_len << " and " << trg_len);
+}
+
 std::vector<std::set<int> > Alignment::GetSrcAlignments() const {
     std::vector<std::set<int> > ret;
     BOOST_FOREACH(AlignmentPair al, vec_) {
diff --git a/src/lib/forest-extractor-runner.cc b/src/lib/forest-extractor-runner.cc
index fe4f552..83650c9 100644
--- a/src/lib/forest-extractor-runner.cc
+++ b/src/lib/forest-extractor-runner.cc
@@ -110,6 +110,9 @@ void ForestExtractorRunner::Run(const ConfigForestExtractorRunner & config) {
         }
         // Get alignment
         Alignment align = Alignment::FromString(align_line);
+        // Trees of sentences that could not be parsed have no words
+        if(src_graph->NumNodes() > 0)
+            align.CheckLengths(src_graph->GetWords().size(), trg_sent.size());
         // Do the rule extraction
         scoped_ptr<HyperGraph> rule_graph(
             extractor.ExtractMinimalRules(*src_graph, align));
diff --git a/src/lib/hiero-extractor-runner.cc b/src/lib/hiero-extractor-runner.cc
index 58e6fac..8168bd6 100644
--- a/src/lib/hiero-extractor-runner.cc
+++ b/src/lib/hiero-extractor-runner.cc
@@ -60,6 +60,8 @@ void HieroExtractorRunner::Run(const ConfigHieroExtractorRunner & config) {
         Sentence src_sent = Dict::ParseWords(src_line);
         Sentence trg_sent = Dict::ParseWords(trg_line);
 
+        alignment.CheckLengths(src_sent.size(), trg_sent.size());
+
         rules = extractor.ExtractHieroRule(alignment,src_sent,trg_sent);
 
         BOOST_FOREACH(vector<HieroRule*> rule , rules) {
-- 
2.43.0


From 221432f0e0fb263eff18b5db821a62efff4342c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:39 +0000
Subject: [PATCH 100/123] fix: rule extraction crashed on lines without a tree

---
 src/lib/forest-extractor-runner.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/forest-extractor-runner.cc b/src/lib/forest-extractor-runner.cc
index 83650c9..297ede9 100644
--- a/src/lib/forest-extractor-runner.cc
+++ b/src/lib/forest-extractor-runner.cc
@@ -92,6 +92,8 @@ void ForestExtractorRunner::Run(const ConfigForestExtractorRunner & config) {
         } catch (std::runtime_error & e) {
             THROW_ERROR("Error reading tree on line " << sent+1 << endl << src_line << endl << e.what());
         }
+        if(src_graph.get() == NULL)
+            THROW_ERROR("No source tree found on line " << sent+1 << endl << src_line);
         // { /* DEBUG */ JSONTreeIO io; io.WriteTree(*src_graph, cerr); cerr << endl; }
         // Binarizer if necessary
         if(binarizer.get() != NULL)
@@ -103,6 +105,8 @@ void ForestExtractorRunner::Run(const ConfigForestExtractorRunner & config) {
         if(trg_io.get() != NULL) {
             istringstream trg_iss(trg_line);
             boost::shared_ptr<HyperGraph> trg_graph(trg_io->ReadTree(trg_iss));
+            if(trg_graph.get() == NULL)
+                THROW_ERROR("No target tree found on line " << sent+1 << endl << trg_line);
             trg_sent = trg_graph->GetWords();
             trg_labs = trg_graph->GetLabeledSpans();    
         } else {
-- 
2.43.0


From cc84b1631d791f78897505ba2ca0b9a60363e9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:39 +0000
Subject: [PATCH 101/123] fix: rules could not be extracted from forests in
 Egret format

---
 src/lib/forest-extractor-runner.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/lib/forest-extractor-runner.cc b/src/lib/forest-extractor-runner.cc
index 297ede9..8f291be 100644
--- a/src/lib/forest-extractor-runner.cc
+++ b/src/lib/forest-extractor-runner.cc
@@ -76,7 +76,15 @@ void ForestExtractorRunner::Run(const ConfigForestExtractorRunner & config) {
     cerr << "Extracting rules (.=10,000, !=100,000 sentences)" << endl;
     while(true) {
         // Load one line from each file and check that they all exist
-        has_src = getline(src_in, src_line) ? 1 : 0;
+        // (Egret forests span multiple lines, so they are read directly)
+        boost::shared_ptr<HyperGraph> src_graph;
+        bool src_egret = config.GetString("input_format") == "egret";
+        if(src_egret) {
+            src_graph.reset(src_io->ReadTree(src_in));
+            has_src = src_graph.get() != NULL ? 1 : 0;
+        } else {
+            has_src = getline(src_in, src_line) ? 1 : 0;
+        }
         has_trg = getline(trg_in, trg_line) ? 1 : 0;
         has_align = getline(align_in, align_line) ? 1 : 0;
         if(has_src + has_trg + has_align == 0) break;
@@ -85,10 +93,9 @@ void ForestExtractorRunner::Run(const ConfigForestExtractorRunner & config) {
                         <<", trg="<<has_trg<<", align="<<has_align);
         PRINT_DEBUG("Extracting from:" << endl << src_line << endl << trg_line << endl << align_line << endl, 1);
         // Parse into the appropriate data structures
-        boost::shared_ptr<HyperGraph> src_graph;
         try {
             istringstream src_iss(src_line);
-            src_graph.reset(src_io->ReadTree(src_iss));
+            if(!src_egret) src_graph.reset(src_io->ReadTree(src_iss));
         } catch (std::runtime_error & e) {
             THROW_ERROR("Error reading tree on line " << sent+1 << endl << src_line << endl << e.what());
         }
-- 
2.43.0


From d56fcb0cf81fb74c54de3db5634406bb2910f183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:43 +0000
Subject: [PATCH 102/123] fix: evaluation read factors that do not exist

---
 src/include/travatar/eval-measure.h | 5 +++++
 src/lib/eval-measure-nist.cc        | 1 +
 src/lib/eval-measure.cc             | 4 ++++
 3 files changed, 10 insertions(+)

diff --git a/src/include/travatar/eval-measure.h b/src/include/travatar/eval-measure.h
index 780d300..4aa03fb 100644
--- a/src/include/travatar/eval-measure.h
+++ b/src/include/travatar/eval-measure.h
@@ -116,6 +116,7 @@ public:
                 const std::vector<Sentence> & syss,
                 int ref_cache_id = INT_MAX,
                 int sys_cache_id = INT_MAX) {
+        CheckFactor(refs.size(), syss.size());
         return CalculateCachedStats(refs[factor_],syss[factor_],ref_cache_id,sys_cache_id);
     }
     virtual EvalStatsPtr CalculateCachedStats(
@@ -123,6 +124,7 @@ public:
                 const CfgDataVector & syss,
                 int ref_cache_id = INT_MAX,
                 int sys_cache_id = INT_MAX) {
+        CheckFactor(refs.size(), syss.size());
         return CalculateCachedStats(refs[factor_],syss[factor_].words,ref_cache_id,sys_cache_id);
     }
 
@@ -144,6 +146,9 @@ public:
 
 protected:
 
+    // Throw an error if the factor to calculate over does not exist
+    void CheckFactor(size_t ref_num, size_t sys_num) const;
+
     // Which factore to calculate over
     int factor_;
 
diff --git a/src/lib/eval-measure-nist.cc b/src/lib/eval-measure-nist.cc
index 338a3de..6428cb1 100644
--- a/src/lib/eval-measure-nist.cc
+++ b/src/lib/eval-measure-nist.cc
@@ -29,6 +29,7 @@ void EvalMeasureNist::InitializeWithReferences(const std::vector< std::vector<Se
     typedef std::vector<Sentence> Sentences;
     int null = 0;
     BOOST_FOREACH(const Sentences & sents, refs) {
+        CheckFactor(sents.size(), sents.size());
         const Sentence & sent = sents[factor_];
         null += sent.size();
         ExtractNgrams(sent, counts);
diff --git a/src/lib/eval-measure.cc b/src/lib/eval-measure.cc
index 8369561..636b768 100644
--- a/src/lib/eval-measure.cc
+++ b/src/lib/eval-measure.cc
@@ -100,6 +100,10 @@ std::string EvalStats::WriteStats() {
     return oss.str();
 }
 
+void EvalMeasure::CheckFactor(size_t ref_num, size_t sys_num) const {
+    if(factor_ < 0 || factor_ >= (int)ref_num || factor_ >= (int)sys_num)
+        THROW_ERROR("Cannot evaluate factor " << factor_ << " of a reference with " << ref_num << " factors and a system output with " << sys_num << " factors");
+}
 
 // Find the oracle sentence for this evaluation measure
 CfgDataVector EvalMeasure::CalculateOracle(const HyperGraph & graph, const std::vector<Sentence> & refs) {
-- 
2.43.0


From 9549db4348f60d6004739e89eaa81e051b1b31f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:43 +0000
Subject: [PATCH 103/123] fix: orders of BLEU and NIST that are not positive
 read outside of the statistics

---
 src/lib/eval-measure-bleu.cc | 2 ++
 src/lib/eval-measure-nist.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/lib/eval-measure-bleu.cc b/src/lib/eval-measure-bleu.cc
index d5262de..d900257 100644
--- a/src/lib/eval-measure-bleu.cc
+++ b/src/lib/eval-measure-bleu.cc
@@ -177,6 +177,8 @@ EvalMeasureBleu::EvalMeasureBleu(const std::string & config) : ngram_order_(4),
     BOOST_FOREACH(const EvalMeasure::StringPair & strs, EvalMeasure::ParseConfig(config)) {
         if(strs.first == "order") {
             ngram_order_ = boost::lexical_cast<int>(strs.second);
+            if(ngram_order_ < 1 || ngram_order_ > 1000)
+                THROW_ERROR("Bad BLEU order: " << config);
         } else if(strs.first == "smooth") {
             smooth_val_ = boost::lexical_cast<Real>(strs.second);
         } else if(strs.first == "prec") {
diff --git a/src/lib/eval-measure-nist.cc b/src/lib/eval-measure-nist.cc
index 6428cb1..2be071a 100644
--- a/src/lib/eval-measure-nist.cc
+++ b/src/lib/eval-measure-nist.cc
@@ -142,6 +142,8 @@ EvalMeasureNist::EvalMeasureNist(const std::string & config) : ngram_order_(5),
     BOOST_FOREACH(const EvalMeasure::StringPair & strs, EvalMeasure::ParseConfig(config)) {
         if(strs.first == "order") {
             ngram_order_ = boost::lexical_cast<int>(strs.second);
+            if(ngram_order_ < 1 || ngram_order_ > 1000)
+                THROW_ERROR("Bad NIST order: " << config);
         } else if(strs.first == "beta") {
             beta_ = boost::lexical_cast<Real>(strs.second);
         } else if(strs.first == "scope") {
-- 
2.43.0


From f1249ae4c64c1992ea48c796f27fc475e346b394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 104/123] fix: statistics with missing values were read outside
 of their bounds

---
 src/lib/eval-measure-bleu.cc | 2 +-
 src/lib/eval-measure-nist.cc | 2 +-
 src/lib/eval-measure.cc      | 3 +++
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/eval-measure-bleu.cc b/src/lib/eval-measure-bleu.cc
index d900257..72d22d7 100644
--- a/src/lib/eval-measure-bleu.cc
+++ b/src/lib/eval-measure-bleu.cc
@@ -79,7 +79,7 @@ boost::shared_ptr<EvalStats> EvalMeasureBleu::ReadStats(const std::string & line
     if(scope_ == SENTENCE)
         ret.reset(new EvalStatsAverage);
     else
-        ret.reset(new EvalStatsBleu(std::vector<EvalStatsDataType>(), smooth_val_, prec_weight_, mean_, inverse_, calc_brev_));
+        ret.reset(new EvalStatsBleu(std::vector<EvalStatsDataType>(3*ngram_order_), smooth_val_, prec_weight_, mean_, inverse_, calc_brev_));
     ret->ReadStats(line);
     return ret;
 }
diff --git a/src/lib/eval-measure-nist.cc b/src/lib/eval-measure-nist.cc
index 2be071a..b71d986 100644
--- a/src/lib/eval-measure-nist.cc
+++ b/src/lib/eval-measure-nist.cc
@@ -88,7 +88,7 @@ boost::shared_ptr<EvalStats> EvalMeasureNist::ReadStats(const std::string & line
     if(scope_ == SENTENCE_NIST)
         ret.reset(new EvalStatsAverage);
     else
-        ret.reset(new EvalStatsNist(std::vector<EvalStatsDataType>(), beta_));
+        ret.reset(new EvalStatsNist(std::vector<EvalStatsDataType>(2*ngram_order_+1), beta_));
     ret->ReadStats(line);
     return ret;
 }
diff --git a/src/lib/eval-measure.cc b/src/lib/eval-measure.cc
index 636b768..7af3035 100644
--- a/src/lib/eval-measure.cc
+++ b/src/lib/eval-measure.cc
@@ -83,11 +83,14 @@ bool EvalStats::Equals(const EvalStats & rhs) const {
 }
 const std::vector<EvalStatsDataType> & EvalStats::GetVals() const { return vals_; }
 void EvalStats::ReadStats(const std::string & str) {
+    size_t expected = vals_.size();
     vals_.resize(0);
     EvalStatsDataType val;
     std::istringstream iss(str);
     while(iss >> val)
         vals_.push_back(val);
+    if(vals_.size() != expected)
+        THROW_ERROR("Expected " << expected << " statistics but got: " << str);
 }
 std::string EvalStats::WriteStats() {
     std::ostringstream oss;
-- 
2.43.0


From 0eb8d917b0f733f501e5a89ea3409f306feeb0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 105/123] fix: batch tuning read outside of the references
 given sentences without one

---
 src/lib/batch-tune-runner.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/batch-tune-runner.cc b/src/lib/batch-tune-runner.cc
index 5a4b6fe..8ec783a 100644
--- a/src/lib/batch-tune-runner.cc
+++ b/src/lib/batch-tune-runner.cc
@@ -54,6 +54,8 @@ void BatchTuneRunner::LoadNbests(istream & sys_in, Tune & tune, istream * stat_i
         // Get the features
         SparseVector feat = Dict::ParseSparseVector(columns[3]);
         // Calculate the score
+        if(id < 0 || id >= (int)refs_.size())
+            THROW_ERROR("There is no reference for sentence " << columns[0] << " of the n-best list:\n" << line);
         const vector<Sentence> & ref = refs_[id];
         boost::shared_ptr<EvalStats> stats;
         if(stat_in) {
@@ -83,6 +85,8 @@ void BatchTuneRunner::LoadForests(istream & sys_in, Tune & tune) {
         if(id % 100 == 0)
             PRINT_DEBUG(id << ".", 1);
         PRINT_DEBUG("Loading line " << id << endl, 1);
+        if(id >= (int)refs_.size())
+            THROW_ERROR("There are more forests than references (" << refs_.size() << ")");
         const std::vector<Sentence> & ref = refs_[id];
         // Add the example
         if((int)tune.NumExamples() <= id) {
@@ -278,6 +282,8 @@ void BatchTuneRunner::CalculateSentenceStats(const ConfigBatchTune & config, con
         if(columns.size() != 4)
             THROW_ERROR("Expected 4 columns in n-best list:\n" << line);
         int id = atoi(columns[0].c_str());
+        if(id < 0 || id >= (int)refs_.size())
+            THROW_ERROR("There is no reference for sentence " << columns[0] << " of the n-best list:\n" << line);
         vector<Sentence> hyps = Dict::ParseWordVector(columns[1]);
         EvalStatsPtr stats = eval_->CalculateCachedStats(refs_[id], hyps, id);
         stat_out << stats->WriteStats() << endl;
-- 
2.43.0


From 4b44e98a69750569d0a7d6506b31df183988e82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 106/123] fix: binarization with punctuation read outside of
 nodes without children

---
 src/lib/binarizer-directional.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/binarizer-directional.cc b/src/lib/binarizer-directional.cc
index 8453679..b24b01b 100644
--- a/src/lib/binarizer-directional.cc
+++ b/src/lib/binarizer-directional.cc
@@ -54,7 +54,7 @@ HyperGraph * BinarizerDirectional::TransformGraph(const HyperGraph & hg) const {
 
             // Choose the direction to do
             Direction dir = dir_;
-            if(raise_punc_) {
+            if(raise_punc_ && tail_str.size() > 1) {
                 // If we are binarizing right, but the last symbol is punctuation
                 if(dir_ == BINARIZE_RIGHT &&
                    punc_labs_.find(hg.GetNode(tail_str[tail_str.size()-1])->GetSym()) != punc_labs_.end()) {
-- 
2.43.0


From 3c9fe70ecb10837cb2e87358fc4d5218c395c680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 107/123] fix: word splitting crashed on empty words and nodes
 without words

---
 src/lib/word-splitter.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lib/word-splitter.cc b/src/lib/word-splitter.cc
index 97c728f..f3736ee 100644
--- a/src/lib/word-splitter.cc
+++ b/src/lib/word-splitter.cc
@@ -23,6 +23,9 @@ HyperGraph * WordSplitter::TransformGraph(const HyperGraph & hg) const {
             new_words.push_back(old_word);
         else
             new_words = StringSplit(old_word);
+        // Words that have no parts stay as they are
+        if(new_words.empty())
+            new_words.push_back(old_word);
         BOOST_FOREACH(const std::string & word, new_words) {
             ids[i].push_back(j++);
             new_wids.push_back(Dict::WID(word));
@@ -58,8 +61,14 @@ HyperGraph * WordSplitter::TransformGraph(const HyperGraph & hg) const {
     }
     for(int nid = 0; nid < orig_node_size; nid++) {
         HyperNode* node = ret->GetNode(nid);
-        std::pair<int,int> span = node->GetSpan(),
-                           new_span(*ids[span.first].begin(),
+        std::pair<int,int> span = node->GetSpan();
+        // Nodes that cover no words only move
+        if(span.first >= span.second) {
+            int pos = (span.first < i ? *ids[span.first].begin() : j);
+            node->SetSpan(make_pair(pos, pos));
+            continue;
+        }
+        std::pair<int,int> new_span(*ids[span.first].begin(),
                                     *ids[span.second-1].rbegin()+1);
         // If it is a non-terminal
         // that has been split, create new nodes as necessary
-- 
2.43.0


From 53067b9541ce48c6c9a9d4ad6352247c9b65f3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 108/123] fix: truncated trees were silently ignored

---
 src/lib/tree-io.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/tree-io.cc b/src/lib/tree-io.cc
index ee8fe0d..061498e 100644
--- a/src/lib/tree-io.cc
+++ b/src/lib/tree-io.cc
@@ -99,6 +99,8 @@ HyperGraph * PennTreeIO::ReadTree(istream & in) {
         }
     }
     delete hg;
+    if(stack.size())
+        THROW_ERROR("The end of the file was reached within a tree");
     return NULL;
 }
 
@@ -164,6 +166,8 @@ HyperGraph * RuleTreeIO::ReadTree(istream & in) {
         }
     }
     delete hg;
+    if(stack.size())
+        THROW_ERROR("The end of the file was reached within a tree");
     return NULL;
 }
 
-- 
2.43.0


From c9f02e90598d05d163769be0623ac0f9968d3e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:46 +0000
Subject: [PATCH 109/123] fix: JSON forests with missing nodes, cycles or spans
 outside of the sentence crashed

---
 src/include/travatar/hyper-graph.h |  4 ++++
 src/lib/hyper-graph.cc             | 34 ++++++++++++++++++++++++++++++
 src/lib/tree-io.cc                 | 19 ++++++++++++++---
 3 files changed, 54 insertions(+), 3 deletions(-)

diff --git a/src/include/travatar/hyper-graph.h b/src/include/travatar/hyper-graph.h
index 1c5744a..375c793 100644
--- a/src/include/travatar/hyper-graph.h
+++ b/src/include/travatar/hyper-graph.h
@@ -414,6 +414,10 @@ public:
 
     void ResetViterbiScores();
 
+    // Throw an error if the graph has missing nodes, spans that do not
+    // lie within the words, or cycles
+    void CheckStructure() const;
+
     // Perform the inside-outside algorithm
     std::vector< std::vector<HyperEdge*> > GetReversedEdges();
     void InsideOutsideNormalize();
diff --git a/src/lib/hyper-graph.cc b/src/lib/hyper-graph.cc
index e197ab9..62506c0 100644
--- a/src/lib/hyper-graph.cc
+++ b/src/lib/hyper-graph.cc
@@ -658,5 +658,39 @@ CfgDataVector HyperPath::CalcTranslations() {
     return ret;
 }
 
+void HyperGraph::CheckStructure() const {
+    int len = words_.size();
+    BOOST_FOREACH(const HyperNode * node, nodes_) {
+        if(node == NULL)
+            THROW_ERROR("Node is missing in forest");
+        pair<int,int> span = node->GetSpan();
+        if(span.first < 0 || span.second > len || span.first + (node->IsTerminal() ? 1 : 0) > span.second)
+            THROW_ERROR("Node " << node->GetId() << " has span [" << span.first << ", " << span.second << "] in a sentence of " << len << " words");
+    }
+    // Visit all nodes depth-first. Nodes are 0: unvisited, 1: being visited, 2: finished
+    vector<int> state(nodes_.size(), 0);
+    BOOST_FOREACH(const HyperNode * start, nodes_) {
+        vector<const HyperNode*> stack(1, start);
+        while(!stack.empty()) {
+            const HyperNode * node = stack.back();
+            int & my_state = state[node->GetId()];
+            if(my_state != 0) {
+                my_state = 2;
+                stack.pop_back();
+                continue;
+            }
+            my_state = 1;
+            BOOST_FOREACH(const HyperEdge * edge, node->GetEdges()) {
+                BOOST_FOREACH(const HyperNode * tail, edge->GetTails()) {
+                    if(state[tail->GetId()] == 1)
+                        THROW_ERROR("Forest has a cycle through node " << tail->GetId());
+                    if(state[tail->GetId()] == 0)
+                        stack.push_back(tail);
+                }
+            }
+        }
+    }
+}
+
 const HyperNode* HyperGraph::GetNode(int i) const { return nodes_[i]; }
 HyperNode* HyperGraph::GetNode(int i) { return nodes_[i]; }
diff --git a/src/lib/tree-io.cc b/src/lib/tree-io.cc
index 061498e..a189993 100644
--- a/src/lib/tree-io.cc
+++ b/src/lib/tree-io.cc
@@ -193,6 +193,13 @@ void RuleTreeIO::WriteTree(const HyperGraph & tree, ostream & out) {
     WriteNode(tree.GetWords(), *tree.GetNode(0), out);
 }
 
+// Check an ID, which is less than the number of things that there are
+inline int CheckJSONId(int id, int num) {
+    if(id < 0 || id >= num)
+        THROW_ERROR("ID " << id << " is not within the " << num << " nodes in JSON forest");
+    return id;
+}
+
 HyperGraph * JSONTreeIO::ReadTree(istream & in) {
     ptree pt;
     string line; 
@@ -202,12 +209,15 @@ HyperGraph * JSONTreeIO::ReadTree(istream & in) {
     json_parser::read_json(line_in, pt);
     HyperGraph * ret = new HyperGraph;
     // Get each of the nodes
+    int num_nodes = pt.get_child("nodes").size();
     BOOST_FOREACH(ptree::value_type &v, pt.get_child("nodes")) {
         HyperNode * node = new HyperNode;
-        node->SetId(v.second.get<int>("id"));
+        node->SetId(CheckJSONId(v.second.get<int>("id"), num_nodes));
         // Nodes without a symbol, such as those added by a language model, are written without "sym"
         boost::optional<string> sym = v.second.get_optional<string>("sym");
         if(sym) node->SetSym(Dict::WID(*sym));
+        if(v.second.get_child("span").size() != 2)
+            THROW_ERROR("Spans must have two elements: " << line);
         ptree::const_iterator it = v.second.get_child("span").begin();
         int l = it->second.get<int>(""); int r = (++it)->second.get<int>("");
         node->SetSpan(make_pair(l, r));
@@ -221,11 +231,11 @@ HyperGraph * JSONTreeIO::ReadTree(istream & in) {
     BOOST_FOREACH(ptree::value_type &v, pt.get_child("edges")) {
         HyperEdge * edge = new HyperEdge;
         edge->SetId(v.second.get<int>("id"));
-        edge->SetHead(ret->GetNode(v.second.get<int>("head")));
+        edge->SetHead(ret->GetNode(CheckJSONId(v.second.get<int>("head"), num_nodes)));
         edge->GetHead()->AddEdge(edge);
         try {
             BOOST_FOREACH(ptree::value_type &t, v.second.get_child("tails"))
-                edge->AddTail(ret->GetNode(t.second.get<int>("")));
+                edge->AddTail(ret->GetNode(CheckJSONId(t.second.get<int>(""), num_nodes)));
         } catch (ptree_bad_path e) { }
         try {
             vector<SparsePair> temp;
@@ -244,6 +254,8 @@ HyperGraph * JSONTreeIO::ReadTree(istream & in) {
                         // Only non-terminals are written as (negative) numbers, others are words like "42"
                         if(val >= 0)
                             val = Dict::WID(x.second.get<string>(""));
+                        else
+                            CheckJSONId(-1-val, edge->GetTails().size());
                         trg_data.words.push_back(val);
                     }
                 } catch (ptree_bad_path e) { }
@@ -264,6 +276,7 @@ HyperGraph * JSONTreeIO::ReadTree(istream & in) {
     }
     BOOST_FOREACH(ptree::value_type &v, pt.get_child("words"))
         ret->AddWord(Dict::WID(v.second.get<string>("")));
+    ret->CheckStructure();
     return ret;
 }
 
-- 
2.43.0


From 94ad791020f21212782cc1b7fd0c4ec0a8966dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:46 +0000
Subject: [PATCH 110/123] fix: Egret forests with cycles, without scores or
 with spans outside of the sentence crashed

---
 src/lib/tree-io.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/tree-io.cc b/src/lib/tree-io.cc
index a189993..bdf7543 100644
--- a/src/lib/tree-io.cc
+++ b/src/lib/tree-io.cc
@@ -320,6 +320,9 @@ HyperNode * EgretTreeIO::MakeEgretNode(const string & str_id, const HyperNode *
     if(is_word) {
         new_node = new HyperNode(Dict::WID(str_id));
     } else {
+        // Spans that are too long to be numbers lie outside of the sentence
+        if(node_match[2].length() > 9 || node_match[3].length() > 9)
+            THROW_ERROR("Bad span in Egret node string: " << str_id);
         new_node = new HyperNode(Dict::WID(node_match[1]), 
                                  -1,
                                  make_pair(atoi(node_match[2].str().c_str()),
@@ -360,7 +363,7 @@ HyperGraph * EgretTreeIO::ReadTree(istream & in) {
     BOOST_REVERSE_FOREACH(const std::string & line, lines) {
         istringstream iss(line);
         // Get the head
-        iss >> buff;
+        if(!(iss >> buff)) THROW_ERROR("Blank line in Egret forest: " << line);
         HyperNode * head = MakeEgretNode(buff, NULL, node_map, ret);
         HyperEdge * edge = new HyperEdge(head); ret->AddEdge(edge); head->AddEdge(edge);
         // The next string should always be "=>"
@@ -376,10 +379,12 @@ HyperGraph * EgretTreeIO::ReadTree(istream & in) {
         }
         if(buff != "|||") THROW_ERROR("||| not found in Egret node string: " << line);
         // Finally, read the score and add it to a parse
+        score = 0;
         iss >> score;
         edge->SetScore(score);
         if(!normalize_) edge->GetFeatures().Add(parse_id, score);
     }
+    ret->CheckStructure();
     // Because Egret outputs posterior probabilities of the edge appearing in
     // the tree, not the relative probability of each edge coming out of a
     // particular node, we need to normalize by nodes
-- 
2.43.0


From f2eacf97aa3057966b2fd5f47a9822ba99849fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:31 +0000
Subject: [PATCH 111/123] fix: matching parts of rules that look like whole
 rules crashed

---
 src/include/travatar/lookup-table.h |  5 +++++
 src/lib/lookup-table.cc             | 19 +++++++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/include/travatar/lookup-table.h b/src/include/travatar/lookup-table.h
index be69536..564bf69 100644
--- a/src/include/travatar/lookup-table.h
+++ b/src/include/travatar/lookup-table.h
@@ -52,6 +52,11 @@ public:
             const HyperNode & node, 
             const std::vector<boost::shared_ptr<LookupState> > & old_states) const;
 
+    // The same as LookupSrc, but only keep the matches of whole rules
+    std::vector<boost::shared_ptr<LookupState> > LookupRules(
+            const HyperNode & node, 
+            const std::vector<boost::shared_ptr<LookupState> > & old_states) const;
+
     // Find rules associated with a particular source pattern
     virtual const std::vector<TranslationRule*> * FindRules(const LookupState & state) const = 0;
 
diff --git a/src/lib/lookup-table.cc b/src/lib/lookup-table.cc
index 9cad9c9..4687a6d 100644
--- a/src/lib/lookup-table.cc
+++ b/src/lib/lookup-table.cc
@@ -49,6 +49,18 @@ vector<boost::shared_ptr<LookupState> > LookupTable::LookupSrc(
     return ret_states;
 }
 
+// Parts of rules can look like whole rules (e.g. when there is something after the
+// last bracket of a rule), so only keep the matches that have rules
+vector<boost::shared_ptr<LookupState> > LookupTable::LookupRules(
+            const HyperNode & node, 
+            const vector<boost::shared_ptr<LookupState> > & old_states) const {
+    vector<boost::shared_ptr<LookupState> > ret_states;
+    BOOST_FOREACH(const boost::shared_ptr<LookupState> & state, LookupSrc(node, old_states))
+        if(FindRules(*state) != NULL)
+            ret_states.push_back(state);
+    return ret_states;
+}
+
 HyperGraph * LookupTable::TransformGraph(const HyperGraph & parse) const {
     if (consider_trg_) {
         return TransformGraphSrcTrg(parse);
@@ -74,7 +86,7 @@ HyperGraph * LookupTable::TransformGraphSrc(const HyperGraph & parse) const {
             ret->AddNode(next_node);
             next_node->SetSym(node->GetSym());
             next_node->SetSpan(node->GetSpan());
-            lookups.push_back(LookupSrc(*node, init_state));
+            lookups.push_back(LookupRules(*node, init_state));
         }
     }
     // For each node
@@ -168,7 +180,7 @@ HyperGraph * LookupTable::TransformGraphSrcTrg(const HyperGraph & parse) const {
     GeneralMap general_map;
     // Construct the hypergraph from bottom to top
     BOOST_FOREACH (const HyperNode* input_node, order) {
-        const vector<boost::shared_ptr<LookupState> > states = LookupSrc(*input_node, init_state);
+        const vector<boost::shared_ptr<LookupState> > states = LookupRules(*input_node, init_state);
         // Expand This state
         TargetMap indexed_head;
         BOOST_FOREACH (const boost::shared_ptr<LookupState> & state, states) {
@@ -271,6 +283,9 @@ HyperGraph * LookupTable::TransformGraphSrcTrg(const HyperGraph & parse) const {
                 }
                 if (trg.size() == 0) {
                     // Translating the node to itself
+                    pair<int,int> span = input_node->GetSpan();
+                    if(span.second - span.first != 1)
+                        THROW_ERROR("Multi-terminal edges are not supported.");
                     WordId word = parse.GetWord(input_node->GetSpan().first);
                     if (save_src_str_) oss << " \"" << Dict::WSym(word) << "\"";
                     trg.push_back(word);
-- 
2.43.0


From c32f7cb02ec164d14430a5da2c1d44a4c4850839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:39 +0000
Subject: [PATCH 112/123] fix: rules with non-terminals or factors that do not
 exist were read outside of their bounds

---
 src/include/travatar/lookup-table.h     |  3 +++
 src/include/travatar/translation-rule.h |  4 ++++
 src/lib/hyper-graph.cc                  |  2 ++
 src/lib/lookup-table-cfglm.cc           |  3 ++-
 src/lib/lookup-table-hash.cc            |  4 +++-
 src/lib/lookup-table-marisa.cc          |  1 +
 src/lib/lookup-table.cc                 | 14 ++++++++++++++
 src/lib/rule-fsm.cc                     |  1 +
 src/lib/translation-rule.cc             | 10 ++++++++++
 src/lib/tree-io.cc                      |  2 --
 10 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/src/include/travatar/lookup-table.h b/src/include/travatar/lookup-table.h
index 564bf69..dfcab52 100644
--- a/src/include/travatar/lookup-table.h
+++ b/src/include/travatar/lookup-table.h
@@ -57,6 +57,9 @@ public:
             const HyperNode & node, 
             const std::vector<boost::shared_ptr<LookupState> > & old_states) const;
 
+    // Count the non-terminals of a source pattern
+    static int CountNonterms(const std::string & src);
+
     // Find rules associated with a particular source pattern
     virtual const std::vector<TranslationRule*> * FindRules(const LookupState & state) const = 0;
 
diff --git a/src/include/travatar/translation-rule.h b/src/include/travatar/translation-rule.h
index caf51d8..7a7cc4b 100644
--- a/src/include/travatar/translation-rule.h
+++ b/src/include/travatar/translation-rule.h
@@ -36,6 +36,10 @@ public:
 
     virtual void Print(std::ostream & out) const;
 
+    // Check that there is target data for all factors, where all non-terminals
+    // exist in the source, and throw an error if not
+    void CheckTrgData(int num_nonterms, const std::string & line) const;
+
     // const std::string & GetSrcStr() const { return src_str_; }
     const CfgDataVector & GetTrgData() const { return trg_data_; }
     const SparseVector & GetFeatures() const { return features_; }
diff --git a/src/lib/hyper-graph.cc b/src/lib/hyper-graph.cc
index 62506c0..c1eab04 100644
--- a/src/lib/hyper-graph.cc
+++ b/src/lib/hyper-graph.cc
@@ -446,6 +446,8 @@ CfgData HyperPath::CalcTranslation(int factor, int & idx) {
         if(wid >= 0) {
             ret.words.push_back(wid);
         } else {
+            if(-1 - wid >= (int)child_trans.size())
+                THROW_ERROR("Translation has non-terminal x" << -1-wid << ", but there are only " << child_trans.size() << " in " << *edges_[my_id]);
             ret.AppendChild(child_trans[-1 - wid]);
         }
     }
diff --git a/src/lib/lookup-table-cfglm.cc b/src/lib/lookup-table-cfglm.cc
index 75d7e95..773e2cb 100644
--- a/src/lib/lookup-table-cfglm.cc
+++ b/src/lib/lookup-table-cfglm.cc
@@ -108,7 +108,8 @@ void LookupTableCFGLM::AddRuleFSM(RuleFSM* fsm) {
         for(size_t i = 0; i < val.first.size(); i++) inv_heads[i] = -1 - val.first[i];
         std::string str((char*)&inv_heads[0], inv_heads.size()*sizeof(WordId));
         marisa::Agent ag; ag.set_query(str.c_str(), str.length());
-        assert(fsm->GetTrie().lookup(ag));
+        if(!fsm->GetTrie().lookup(ag))
+            THROW_ERROR("Internal error when adding unary rules");
         BOOST_FOREACH(TranslationRuleHiero * rule, fsm->GetRules()[ag.key().id()]) {
             //cerr << "Adding rule: " << *rule << " at " << val.first << endl;
             unary_ids_[val.first].push_back(unary_rules_.size());
diff --git a/src/lib/lookup-table-hash.cc b/src/lib/lookup-table-hash.cc
index 53a1f7a..f8e5b01 100644
--- a/src/lib/lookup-table-hash.cc
+++ b/src/lib/lookup-table-hash.cc
@@ -74,7 +74,9 @@ LookupTableHash * LookupTableHash::ReadFromRuleTable(std::istream & in) {
         }
         CfgDataVector trg_data = Dict::ParseAnnotatedVector(columns[1]);
         SparseVector features = Dict::ParseSparseVector(columns[2]);
-        ret->AddRule(columns[0], new TranslationRule(trg_data, features));
+        TranslationRule * rule = new TranslationRule(trg_data, features);
+        ret->AddRule(columns[0], rule);
+        rule->CheckTrgData(CountNonterms(columns[0]), line);
     }
     return ret;
 }
diff --git a/src/lib/lookup-table-marisa.cc b/src/lib/lookup-table-marisa.cc
index 0763ee1..81ef938 100644
--- a/src/lib/lookup-table-marisa.cc
+++ b/src/lib/lookup-table-marisa.cc
@@ -55,6 +55,7 @@ LookupTableMarisa * LookupTableMarisa::ReadFromRuleTable(std::istream & in) {
             last_src = columns[0];
         }
         rules.rbegin()->push_back(rule);
+        rule->CheckTrgData(CountNonterms(columns[0]), line);
     }
     // Build the trie
     ret->GetTrie().build(keyset);
diff --git a/src/lib/lookup-table.cc b/src/lib/lookup-table.cc
index 4687a6d..74c71e8 100644
--- a/src/lib/lookup-table.cc
+++ b/src/lib/lookup-table.cc
@@ -4,6 +4,7 @@
 #include <travatar/dict.h>
 #include <travatar/hyper-graph.h>
 #include <travatar/global-debug.h>
+#include <travatar/string-util.h>
 #include <boost/foreach.hpp>
 #include <set>
 
@@ -49,6 +50,19 @@ vector<boost::shared_ptr<LookupState> > LookupTable::LookupSrc(
     return ret_states;
 }
 
+// Non-terminals look like "x0:NP", and are not followed by a bracket like labels
+int LookupTable::CountNonterms(const std::string & src) {
+    int ret = 0;
+    vector<string> words = Tokenize(src, ' ');
+    for(size_t i = 0; i < words.size(); i++) {
+        size_t end = words[i].find_first_not_of("0123456789", 1);
+        if(words[i][0] == 'x' && end != string::npos && end > 1 && words[i][end] == ':' &&
+           (i+1 == words.size() || words[i+1] != "("))
+            ++ret;
+    }
+    return ret;
+}
+
 // Parts of rules can look like whole rules (e.g. when there is something after the
 // last bracket of a rule), so only keep the matches that have rules
 vector<boost::shared_ptr<LookupState> > LookupTable::LookupRules(
diff --git a/src/lib/rule-fsm.cc b/src/lib/rule-fsm.cc
index fdd23c3..6cd476b 100644
--- a/src/lib/rule-fsm.cc
+++ b/src/lib/rule-fsm.cc
@@ -36,6 +36,7 @@ RuleFSM * RuleFSM::ReadFromRuleTable(istream & in) {
         BOOST_FOREACH(const CfgData & trg_data, rule->GetTrgData())
             if(trg_data.syms.size() != src_data.syms.size())
                 THROW_ERROR("Mismatched number of non-terminals in rule table: " << endl << line);
+        rule->CheckTrgData(src_data.syms.size(), line);
         if(src_data.words.size() == 0)
             THROW_ERROR("Empty sources in a rule are not allowed: " << endl << line);
         BOOST_FOREACH(WordId srcid, src_data.words)
diff --git a/src/lib/translation-rule.cc b/src/lib/translation-rule.cc
index b4cad5b..fbbddec 100644
--- a/src/lib/translation-rule.cc
+++ b/src/lib/translation-rule.cc
@@ -2,10 +2,20 @@
 #include <travatar/translation-rule.h>
 #include <travatar/sparse-map.h>
 #include <travatar/dict.h>
+#include <travatar/global-debug.h>
 
 using namespace std;
 using namespace travatar;
 
+void TranslationRule::CheckTrgData(int num_nonterms, const std::string & line) const {
+    if((int)trg_data_.size() < GlobalVars::trg_factors)
+        THROW_ERROR("Expected " << GlobalVars::trg_factors << " target factors but got " << trg_data_.size() << " in rule table: " << line);
+    BOOST_FOREACH(const CfgData & trg_data, trg_data_)
+        BOOST_FOREACH(WordId wid, trg_data.words)
+            if(-1 - wid >= num_nonterms)
+                THROW_ERROR("Non-terminal x" << -1-wid << " does not exist in the source in rule table: " << line);
+}
+
 void TranslationRule::Print(std::ostream & out) const {
     out << "{";
     if(trg_data_.size()) {
diff --git a/src/lib/tree-io.cc b/src/lib/tree-io.cc
index bdf7543..a6eb190 100644
--- a/src/lib/tree-io.cc
+++ b/src/lib/tree-io.cc
@@ -254,8 +254,6 @@ HyperGraph * JSONTreeIO::ReadTree(istream & in) {
                         // Only non-terminals are written as (negative) numbers, others are words like "42"
                         if(val >= 0)
                             val = Dict::WID(x.second.get<string>(""));
-                        else
-                            CheckJSONId(-1-val, edge->GetTails().size());
                         trg_data.words.push_back(val);
                     }
                 } catch (ptree_bad_path e) { }
-- 
2.43.0


From f06a08a64d940e0ac56513030c6e4c4b2fbd62e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:08 +0000
Subject: [PATCH 113/123] fix: rule extraction read outside of the target
 sentence given forests with other target spans

---
 src/lib/forest-extractor-runner.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/forest-extractor-runner.cc b/src/lib/forest-extractor-runner.cc
index 8f291be..75d3144 100644
--- a/src/lib/forest-extractor-runner.cc
+++ b/src/lib/forest-extractor-runner.cc
@@ -124,6 +124,10 @@ void ForestExtractorRunner::Run(const ConfigForestExtractorRunner & config) {
         // Trees of sentences that could not be parsed have no words
         if(src_graph->NumNodes() > 0)
             align.CheckLengths(src_graph->GetWords().size(), trg_sent.size());
+        // Forests in JSON format can have their own target spans
+        BOOST_FOREACH(const HyperNode * node, src_graph->GetNodes())
+            if(node->GetTrgSpan().size() && (*node->GetTrgSpan().begin() < 0 || *node->GetTrgSpan().rbegin() >= (int)trg_sent.size()))
+                THROW_ERROR("Target span of node " << node->GetId() << " is outside of the target sentence on line " << sent+1);
         // Do the rule extraction
         scoped_ptr<HyperGraph> rule_graph(
             extractor.ExtractMinimalRules(*src_graph, align));
-- 
2.43.0


From 601bd6d4b7b0b61df977c2f361a96aee16cd3416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:08 +0000
Subject: [PATCH 114/123] fix: numbers such as 1e308 in ARPA files were parsed
 with undefined shifts

---
 src/kenlm/util/double-conversion/strtod.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kenlm/util/double-conversion/strtod.cc b/src/kenlm/util/double-conversion/strtod.cc
index e298766..062053e 100644
--- a/src/kenlm/util/double-conversion/strtod.cc
+++ b/src/kenlm/util/double-conversion/strtod.cc
@@ -286,7 +286,7 @@ static bool DiyFpStrtod(Vector<const char> buffer,
   const int kDenominator = 1 << kDenominatorLog;
   // Move the remaining decimals into the exponent.
   exponent += remaining_decimals;
-  int error = (remaining_decimals == 0 ? 0 : kDenominator / 2);
+  uint64_t error = (remaining_decimals == 0 ? 0 : kDenominator / 2);
 
   int old_e = input.e();
   input.Normalize();
-- 
2.43.0


From dc08207d29bc3ed950ffbfe68e428cd1ded02103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:08 +0000
Subject: [PATCH 115/123] fix: negative and huge counts in ARPA files
 overflowed the sizes of language models

---
 src/kenlm/lm/read_arpa.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kenlm/lm/read_arpa.cc b/src/kenlm/lm/read_arpa.cc
index fb8bbfa..1866cec 100644
--- a/src/kenlm/lm/read_arpa.cc
+++ b/src/kenlm/lm/read_arpa.cc
@@ -38,7 +38,8 @@ uint64_t ReadCount(const std::string &from) {
   std::stringstream stream(from);
   uint64_t ret;
   stream >> ret;
-  UTIL_THROW_IF(!stream, FormatLoadException, "Bad count " << from);
+  // Negative numbers wrap around.  Sizes in memory are multiples of the count and must not.
+  UTIL_THROW_IF(!stream || ret > (1ULL << 48), FormatLoadException, "Bad count " << from);
   return ret;
 }
 
-- 
2.43.0


From efbfda6ec153c17272957a2f995c22b3942959b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:49 +0000
Subject: [PATCH 116/123] fix: symbols that do not exist were read outside of
 the vocabulary

---
 src/include/travatar/symbol-set.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/include/travatar/symbol-set.h b/src/include/travatar/symbol-set.h
index 69cdfe8..9506ca7 100644
--- a/src/include/travatar/symbol-set.h
+++ b/src/include/travatar/symbol-set.h
@@ -1,6 +1,7 @@
 #ifndef SYMBOL_SET_H__
 #define SYMBOL_SET_H__
 
+#include <travatar/global-debug.h>
 #include <boost/thread.hpp>
 #include <boost/thread/locks.hpp>
 #include <boost/unordered_map.hpp>
@@ -46,6 +47,8 @@ public:
     const std::vector<std::string*> & GetSymbols() const { return vocab_; }
     const std::string & GetSymbol(T id) const {
         boost::shared_lock< boost::shared_mutex > lock(mutex_);
+        if(id < 0 || id >= (T)vocab_.size())
+            THROW_ERROR("There is no symbol with ID " << id);
         return *vocab_[id];
         // return *SafeAccess(vocab_, id);
     }
-- 
2.43.0


From 502ecff52e07053579b5703c1a996d8926cc37da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:49 +0000
Subject: [PATCH 117/123] fix: MERT did not end when scores were not numbers

---
 src/lib/tune-mert.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/tune-mert.cc b/src/lib/tune-mert.cc
index fa57132..d2b4279 100644
--- a/src/lib/tune-mert.cc
+++ b/src/lib/tune-mert.cc
@@ -171,7 +171,8 @@ Real TuneMert::RunTuning(SparseMap & weights) {
                 best_gradient = gradient;
             }
         }
-        if(!best_result.after || best_result.gain <= gain_threshold_) break;
+        // (written so that gains that are not a number also end here)
+        if(!best_result.after || !(best_result.gain > gain_threshold_)) break;
         // 4) Update based on the gradient
         weights += best_gradient * best_result.pos;
         best_score = best_result.after->ConvertToScore();
-- 
2.43.0


From 468632901337104acdefa0a1f5d2c1644179faad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:49 +0000
Subject: [PATCH 118/123] fix: CFG decoding crashed on hypotheses with infinite
 scores

---
 src/lib/lookup-table-cfglm.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lib/lookup-table-cfglm.cc b/src/lib/lookup-table-cfglm.cc
index 773e2cb..c74ae65 100644
--- a/src/lib/lookup-table-cfglm.cc
+++ b/src/lib/lookup-table-cfglm.cc
@@ -198,7 +198,12 @@ void LookupTableCFGLM::CubePrune(int N, int i, int j, vector<CFGCollection> & co
         assert(lab.size() == path.size());
         for(size_t pid = 0; pid < path.size() && score != -REAL_MAX; pid++) {
             int id = path[pid].first * N + path[pid].second;
-            score += chart[id].GetHypScore(lab[pid], 0);
+            // Scores of other hypotheses can be infinite, so check before adding
+            Real child_score = chart[id].GetHypScore(lab[pid], 0);
+            if(child_score == -REAL_MAX)
+                score = -REAL_MAX;
+            else
+                score += child_score;
         }
         if(score != -REAL_MAX) {
             vector<int> pos(spans[rid]->size()+1,0); pos[0] = rid;
@@ -290,7 +295,9 @@ void LookupTableCFGLM::CubePrune(int N, int i, int j, vector<CFGCollection> & co
         // Advance the hypothesis
         for(size_t j = 0; j < path->size(); j++) {
             const pair<int,int> & my_span = (*path)[j];
-            Real my_score = top_score + chart[my_span.first*N + my_span.second].GetHypScoreDiff(rule->GetChildHeadLabels(j), id_str[j+1]+1);
+            const CFGChartItem & my_item = chart[my_span.first*N + my_span.second];
+            if(my_item.GetHypScore(rule->GetChildHeadLabels(j), id_str[j+1]+1) == -REAL_MAX) continue;
+            Real my_score = top_score + my_item.GetHypScoreDiff(rule->GetChildHeadLabels(j), id_str[j+1]+1);
             if(my_score > -REAL_MAX/2) {
                 vector<int> pos(id_str); pos[j+1]++;
                 hypo_queue.push(make_pair(my_score, pos));
-- 
2.43.0


From 03e1909f49ed34e942080416798c1654a6dcb7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:36 +0000
Subject: [PATCH 119/123] fix: forests with children outside of the spans of
 their parents, or without nodes, crashed rule extraction

---
 src/include/travatar/hyper-graph.h | 3 ++-
 src/lib/hyper-graph.cc             | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/include/travatar/hyper-graph.h b/src/include/travatar/hyper-graph.h
index 375c793..01f34d4 100644
--- a/src/include/travatar/hyper-graph.h
+++ b/src/include/travatar/hyper-graph.h
@@ -389,7 +389,8 @@ public:
 
     // Calculate frontier nodes and alignments for the whole graph
     void CalculateFrontiers(const std::vector<std::set<int> > & src_spans) {
-        nodes_[0]->CalculateFrontier(src_spans, std::set<int>());
+        if(nodes_.size() != 0)
+            nodes_[0]->CalculateFrontier(src_spans, std::set<int>());
     }
 
     // Append one hypergraph to another and return the root node of the
diff --git a/src/lib/hyper-graph.cc b/src/lib/hyper-graph.cc
index c1eab04..27c2b12 100644
--- a/src/lib/hyper-graph.cc
+++ b/src/lib/hyper-graph.cc
@@ -666,8 +666,12 @@ void HyperGraph::CheckStructure() const {
         if(node == NULL)
             THROW_ERROR("Node is missing in forest");
         pair<int,int> span = node->GetSpan();
-        if(span.first < 0 || span.second > len || span.first + (node->IsTerminal() ? 1 : 0) > span.second)
+        if(span.first < 0 || span.second > len || (node->IsTerminal() ? span.first >= span.second : span.first > span.second))
             THROW_ERROR("Node " << node->GetId() << " has span [" << span.first << ", " << span.second << "] in a sentence of " << len << " words");
+        BOOST_FOREACH(const HyperEdge * edge, node->GetEdges())
+            BOOST_FOREACH(const HyperNode * tail, edge->GetTails())
+                if(tail->GetSpan().first < span.first || tail->GetSpan().second > span.second)
+                    THROW_ERROR("Node " << tail->GetId() << " is not within the span of its parent " << node->GetId());
     }
     // Visit all nodes depth-first. Nodes are 0: unvisited, 1: being visited, 2: finished
     vector<int> state(nodes_.size(), 0);
-- 
2.43.0


From 8f047bd5e8fc603a23e2ebd3d1d891e4e5a42843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:36 +0000
Subject: [PATCH 120/123] fix: greedy MERT read outside of the n-best list when
 all scores are infinite

---
 src/lib/tuning-example-nbest.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/tuning-example-nbest.cc b/src/lib/tuning-example-nbest.cc
index 44b53ea..233e80b 100644
--- a/src/lib/tuning-example-nbest.cc
+++ b/src/lib/tuning-example-nbest.cc
@@ -22,7 +22,8 @@ void TuningExampleNbest::CountWeights(set<WordId> & weights) {
 SparseMap TuningExampleNbest::CalculatePotentialGain(const SparseMap & weights) {
     if(nbest_.size() == 0) return SparseMap();
     // Find the hypothesis to be chosen with the current weights
-    int hyp = -1;
+    // (the first if no score is larger, as with scores that are infinite or not numbers)
+    int hyp = 0;
     Real hyp_score = -REAL_MAX;
     for(int i = 0; i < (int)nbest_.size(); i++) {
         Real my_score = weights * nbest_[i].first;
-- 
2.43.0


From c4cde18f70a03483a038f37a61327e486cf40cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:36 +0000
Subject: [PATCH 121/123] fix: tuning on forests with non-terminals that do not
 exist read outside of the translations

---
 src/lib/mert-geometry.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/mert-geometry.cc b/src/lib/mert-geometry.cc
index 0be1d19..0fe907c 100644
--- a/src/lib/mert-geometry.cc
+++ b/src/lib/mert-geometry.cc
@@ -178,6 +178,8 @@ void MertLine::ConstructTranslation(const vector<WordId> & sent, vector<Sentence
             } else if(id >= 0) {
                 (*trans)[factor].push_back(id);
             } else {
+                if(-id > (int)ant_size)
+                    THROW_ERROR("Translation has non-terminal x" << -1-id << ", but there are only " << ant_size);
                 // Because tails are in reverse order, we must access them accordingly
                 BOOST_FOREACH(WordId cid, ant_trans[ant_size + id][factor])
                     (*trans)[factor].push_back(cid);
-- 
2.43.0


From f09e6c9ce49bd37663ff5f92110485baffaeb8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:36 +0000
Subject: [PATCH 122/123] fix: numbers of target factors that are not positive
 crashed

---
 src/lib/batch-tune-runner.cc | 2 ++
 src/lib/travatar-runner.cc   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/lib/batch-tune-runner.cc b/src/lib/batch-tune-runner.cc
index 8ec783a..4b15fb7 100644
--- a/src/lib/batch-tune-runner.cc
+++ b/src/lib/batch-tune-runner.cc
@@ -296,6 +296,8 @@ void BatchTuneRunner::Run(const ConfigBatchTune & config) {
     // Set the debugging level and number of factors
     GlobalVars::debug = config.GetInt("debug");
     GlobalVars::trg_factors = config.GetInt("trg_factors");
+    if(GlobalVars::trg_factors < 1 || GlobalVars::trg_factors > 1000)
+        THROW_ERROR("The number of target factors must be between 1 and 1000, but got " << GlobalVars::trg_factors);
 
     // Open the references
     ifstream ref_in(config.GetMainArg(0).c_str());
diff --git a/src/lib/travatar-runner.cc b/src/lib/travatar-runner.cc
index 1c2a8d2..7a6228b 100644
--- a/src/lib/travatar-runner.cc
+++ b/src/lib/travatar-runner.cc
@@ -185,6 +185,8 @@ void TravatarRunner::Run(const ConfigTravatarRunner & config) {
     // Load all the variables
     GlobalVars::debug = config.GetInt("debug");
     GlobalVars::trg_factors = config.GetInt("trg_factors");
+    if(GlobalVars::trg_factors < 1 || GlobalVars::trg_factors > 1000)
+        THROW_ERROR("The number of target factors must be between 1 and 1000, but got " << GlobalVars::trg_factors);
     nbest_tree_ = config.GetBool("nbest_tree");
     bool save_src_str = (config.GetString("trace_out") != "" || nbest_tree_);
     bool consider_trg = config.GetBool("consider_trg");
-- 
2.43.0


From 1b7390bb7dcc5249b7b9e17f83a73f9c1e0fb066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:56 +0000
Subject: [PATCH 123/123] fix: forests whose edges of a node cover different
 words crashed rule extraction

---
 src/lib/hyper-graph.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib/hyper-graph.cc b/src/lib/hyper-graph.cc
index 27c2b12..8b09f74 100644
--- a/src/lib/hyper-graph.cc
+++ b/src/lib/hyper-graph.cc
@@ -220,10 +220,13 @@ const set<int> & HyperNode::CalculateTrgSpan(
             trg_span_ = word_spans[src_span_.first];
     } else {
         // First, calculate all the spans
+        // (of all edges, as nothing ensures that they cover the same words)
         trg_span_ = set<int>();
-        BOOST_FOREACH(HyperNode* child, GetEdge(0)->GetTails()) {
-            BOOST_FOREACH(int val, child->CalculateTrgSpan(word_spans)) {
-                trg_span_.insert(val);
+        BOOST_FOREACH(HyperEdge* edge, edges_) {
+            BOOST_FOREACH(HyperNode* child, edge->GetTails()) {
+                BOOST_FOREACH(int val, child->CalculateTrgSpan(word_spans)) {
+                    trg_span_.insert(val);
+                }
             }
         }
     }
-- 
2.43.0

