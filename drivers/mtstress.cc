// Concurrent use of the parts of the library that worker threads share, watched by ThreadSanitizer and by counters.
//   mtstress MODE SEED THREADS N        prints "OK <events>" or "BAD <what>" lines
#include <map>
#include <travatar/dict.h>
#include <travatar/sentence.h>
#include <travatar/thread-pool.h>
#include <travatar/task.h>
#include <travatar/output-collector.h>
#include <travatar/binarizer.h>
#include <travatar/tree-io.h>
#include <travatar/hyper-graph.h>
#include <travatar/eval-measure-bleu.h>
#include <travatar/eval-measure.h>
#include <boost/thread.hpp>
#include <boost/bind.hpp>
#include <boost/shared_ptr.hpp>
#include <atomic>
#include <iostream>
#include <set>
#include <sstream>
#include <cstdlib>
#include <cstdio>
#include <unistd.h>
using namespace travatar;
using namespace std;

static std::atomic<int> bad(0);
static boost::mutex out_mutex;
static void Bad(const string & s) { bad++; boost::mutex::scoped_lock l(out_mutex); if(bad < 20) cout << "BAD " << s << endl; }
static unsigned Next(unsigned & s) { s = s * 1103515245u + 12345u; return (s >> 16) & 0x7fff; }
static void Nap(unsigned & s) { unsigned r = Next(s) % 8; if(r == 0) usleep(Next(s) % 300); else if(r < 3) boost::this_thread::yield(); }

// ---- symbol table
static void DictWorker(unsigned seed, int n, const vector<string> * strs, vector<int> * ids) {
    for(int i = 0; i < n; i++) {
        int k = Next(seed) % strs->size();
        const string & s = (*strs)[k];
        int id;
        switch(Next(seed) % 3) {
            case 0: { id = Dict::WID(s); break; }
            case 1: { Sentence w = Dict::ParseWords(s + " " + s); if(w.size() != 2 || w[0] != w[1]) Bad("ParseWords gave two ids for one word"); id = w[0]; break; }
            default: { id = Dict::WID(s); ostringstream o; if(Dict::PrintWords(Sentence(1, id)) != s) Bad("PrintWords of a fresh id"); }
        }
        if(Dict::WSym(id) != s) Bad("WSym(WID(" + s + ")) is " + Dict::WSym(id));
        if((*ids)[k] == -1) (*ids)[k] = id;
        else if((*ids)[k] != id) Bad("the id of " + s + " changed");
    }
}
static int RunDict(unsigned seed, int threads, int n) {
    vector<string> strs;
    for(int i = 0; i < n / 2 + 2; i++) { ostringstream o; o << "s" << seed << "_" << i; strs.push_back(o.str()); }
    vector<vector<int> > ids(threads, vector<int>(strs.size(), -1));
    boost::thread_group g;
    for(int t = 0; t < threads; t++) g.create_thread(boost::bind(DictWorker, seed + t * 977, n, &strs, &ids[t]));
    g.join_all();
    set<int> seen; int interned = 0;
    for(size_t k = 0; k < strs.size(); k++) {
        int id = -1;
        for(int t = 0; t < threads; t++) {
            if(ids[t][k] == -1) continue;
            if(id == -1) id = ids[t][k];
            else if(id != ids[t][k]) Bad("threads got different ids for " + strs[k]);
        }
        if(id == -1) continue;
        ++interned;
        if(!seen.insert(id).second) Bad("two strings share an id");
        if(Dict::WID(strs[k]) != id || Dict::WSym(id) != strs[k]) Bad("the table changed " + strs[k]);
    }
    return interned;
}

// ---- task pool and output order
struct PoolState {
    PoolState(int n, int t) : runs(n), active(0), peak(0), dtors(0), threads(t) { for(int i = 0; i < n; i++) runs[i] = 0; }
    vector<std::atomic<int> > runs; std::atomic<int> active, peak, dtors; int threads;
};
struct CountTask : public Task {
    CountTask(int id, PoolState * s, unsigned seed, OutputCollector * c) : id_(id), s_(s), seed_(seed), c_(c), alive_(12345) { }
    ~CountTask() { if(alive_ != 12345) Bad("task destroyed twice"); alive_ = 0; s_->dtors++; }
    void Run() {
        int a = ++s_->active; int p = s_->peak; while(a > p && !s_->peak.compare_exchange_weak(p, a)) { }
        if(a > s_->threads) Bad("more tasks at once than threads");
        Nap(seed_);
        plain_ = id_;               // owned by exactly one thread while it runs
        s_->runs[id_]++;
        if(c_) { ostringstream o; o << id_ << "\n"; if(id_ % 5 == 3) c_->Skip(id_); else c_->Write(id_, o.str(), "e" + o.str()); }
        Nap(seed_);
        --s_->active;
    }
    int id_; PoolState * s_; unsigned seed_; OutputCollector * c_; int alive_; int plain_;
};
static int RunPool(unsigned seed, int threads, int n) {
    int total = 0;
    for(int round = 0; round < 3; round++) {
        int limit = Next(seed) % 3 == 0 ? 0 : 1 + Next(seed) % 7;
        bool del = Next(seed) % 2, wait = Next(seed) % 2, buffer = Next(seed) % 2;
        PoolState st(n, threads);
        ostringstream out, err;
        OutputCollector coll(&out, &err, buffer);
        vector<boost::shared_ptr<CountTask> > keep;
        {
            ThreadPool pool(threads, limit);
            pool.SetDeleteTasks(del);
            for(int i = 0; i < n; i++) {
                CountTask * t = new CountTask(i, &st, seed + i * 31, &coll);
                if(!del) keep.push_back(boost::shared_ptr<CountTask>(t));
                pool.Submit(t);
                if(Next(seed) % 16 == 0) Nap(seed);
                if(wait && Next(seed) % 10 == 0) {
                    pool.Wait();
                    for(int j = 0; j <= i; j++) if(st.runs[j] != 1) Bad("Wait returned before a submitted task was done");
                }
            }
            if(wait) { pool.Wait(); for(int j = 0; j < n; j++) if(st.runs[j] != 1) Bad("Wait returned before the last tasks were done"); }
            pool.Stop(true);
            bool threw = false;
            CountTask * late = new CountTask(0, &st, 1, NULL);
            int d = st.dtors;
            try { pool.Submit(late); } catch(std::exception & e) { threw = true; }
            if(!threw) Bad("a stopped pool accepted a task"); else delete late;
            st.dtors = d;
        }
        for(int i = 0; i < n; i++) if(st.runs[i] != 1) { ostringstream o; o << "task " << i << " ran " << st.runs[i] << " times"; Bad(o.str()); }
        if(st.dtors != (del ? n : 0)) Bad("the pool destroyed the wrong number of tasks");
        ostringstream eo, ee;
        for(int i = 0; i < n; i++) if(i % 5 != 3) { eo << i << "\n"; ee << "e" << i << "\n"; }
        if(out.str() != eo.str()) Bad("the collector's output is not in the order of the ids, or not complete");
        if(err.str() != ee.str()) Bad("the collector's messages are not in the order of the ids, or not complete");
        total += n;
    }
    return total;
}

// ---- one transformer shared by all workers
static string Penn(unsigned & s, int d) {
    ostringstream o; const char * syms[] = {"NP", "VP", "S", "X-1"};
    o << "(" << syms[Next(s) % 4];
    if(Next(s) % 3 == 0) o << Next(s) % 40;
    if(d == 0 || Next(s) % 4 == 0) { o << " w" << Next(s) % 50 << ")"; return o.str(); }
    int k = 1 + Next(s) % 5;
    for(int i = 0; i < k; i++) o << " " << Penn(s, d - 1);
    o << ")"; return o.str();
}
static string Show(const HyperGraph & g) { ostringstream o; JSONTreeIO io; io.WriteTree(g, o); return o.str(); }
static void BinWorker(const Binarizer * b, const vector<string> * trees, vector<string> * out, int t, int threads) {
    PennTreeIO io;
    for(size_t i = t; i < trees->size(); i += threads) {
        istringstream in((*trees)[i]);
        boost::shared_ptr<HyperGraph> g(io.ReadTree(in));
        boost::shared_ptr<HyperGraph> r(const_cast<Binarizer*>(b)->TransformGraph(*g));
        (*out)[i] = Show(*r);
    }
}
static int RunBin(unsigned seed, int threads, int n) {
    const char * kinds[] = {"left", "right", "leftrp", "rightrp", "cky"};
    boost::shared_ptr<Binarizer> b(Binarizer::CreateBinarizerFromString(kinds[seed % 5]));
    vector<string> trees(n), par(n), ser(n);
    for(int i = 0; i < n; i++) trees[i] = Penn(seed, 3);
    boost::thread_group g;
    for(int t = 0; t < threads; t++) g.create_thread(boost::bind(BinWorker, b.get(), &trees, &par, t, threads));
    g.join_all();
    BinWorker(b.get(), &trees, &ser, 0, 1);
    for(int i = 0; i < n; i++) if(par[i] != ser[i]) Bad("binarizing " + trees[i] + " depends on the other threads");
    return n;
}

// ---- one measure shared by all workers
static void BleuWorker(EvalMeasureBleu * b, const vector<Sentence> * refs, const vector<Sentence> * hyps, int t, unsigned seed) {
    EvalMeasureBleu mine(4, 1);
    for(size_t j = 0; j < hyps->size(); j++) {
        int i = Next(seed) % refs->size();
        EvalStatsPtr a = b->CalculateStats((*refs)[i], (*hyps)[j], i);
        EvalStatsPtr e = mine.CalculateStats((*refs)[i], (*hyps)[j]);
        if(a->ConvertToString() != e->ConvertToString()) Bad("cached BLEU statistics differ from fresh ones");
    }
}
static int RunBleu(unsigned seed, int threads, int n) {
    vector<Sentence> refs(20), hyps(n);
    for(size_t i = 0; i < refs.size(); i++) for(int k = Next(seed) % 12; k >= 0; k--) refs[i].push_back(Dict::WID(string(1, 'a' + Next(seed) % 6)));
    for(int i = 0; i < n; i++) for(int k = Next(seed) % 12; k >= 0; k--) hyps[i].push_back(Dict::WID(string(1, 'a' + Next(seed) % 6)));
    EvalMeasureBleu bleu(4, 1);
    boost::thread_group g;
    for(int t = 0; t < threads; t++) g.create_thread(boost::bind(BleuWorker, &bleu, &refs, &hyps, t, seed + t));
    g.join_all();
    return n * threads;
}

int main(int argc, char ** argv) {
    string mode = argv[1];
    unsigned seed = atoi(argv[2]); int threads = atoi(argv[3]), n = atoi(argv[4]);
    int ev = 0;
    if(mode == "dict") ev = RunDict(seed, threads, n);
    else if(mode == "pool") ev = RunPool(seed, threads, n);
    else if(mode == "bin") ev = RunBin(seed, threads, n);
    else if(mode == "bleu") ev = RunBleu(seed, threads, n);
    if(!bad) cout << "OK " << ev << endl;
    return bad ? 1 : 0;
}
