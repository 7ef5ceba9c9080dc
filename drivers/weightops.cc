// Online learners driven by a script, and online tuning with a log of every step.
#include <travatar/weights.h>
#include <travatar/weights-perceptron.h>
#include <travatar/weights-average-perceptron.h>
#include <travatar/weights-adagrad.h>
#include <travatar/weights-online-pro.h>
#include <travatar/tune-online.h>
#include <travatar/tuning-example-nbest.h>
#include <travatar/eval-measure.h>
#include <travatar/eval-measure-loader.h>
#include <travatar/global-debug.h>
#include <travatar/dict.h>
#include <boost/shared_ptr.hpp>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
using namespace travatar;
using namespace std;

static string Num(double d) { char b[64]; snprintf(b, 64, "%.17g", d); return b; }
static vector<string> Split(const string & s, char c) { vector<string> r(1); for(size_t i = 0; i < s.size(); i++) if(s[i] == c) r.push_back(""); else r.back() += s[i]; return r; }
static double D(const string & s) { return strtod(s.c_str(), NULL); }
static string ShowMap(const SparseMap & m) {
    string r;
    for(SparseMap::const_iterator it = m.begin(); it != m.end(); ++it) r += (r.size() ? " " : "") + Dict::WSym(it->first) + "=" + Num(it->second);
    return r;
}

static WeightsPerceptron * Make(const string & kind, const SparseMap & init) {
    if(kind == "perceptron") return new WeightsPerceptron(init);
    if(kind == "avgperceptron") return new WeightsAveragePerceptron(init);
    return new WeightsAdagrad(init);
}

// what the pair sampler asks for
struct Recorder : public Weights {
    ostringstream os;
    vector<SparseVector*> f; int n;
    Recorder() : n(0) { }
    int Find(const SparseVector & v) { for(size_t i = 0; i < f.size(); i++) if(f[i] == &v) return i; return -1; }
    void Update(const SparseVector & o, Real os_, Real oe, const SparseVector & s, Real ss, Real se) {
        n++;
        os << '\t' << Find(o) << ' ' << Num(os_) << ' ' << Num(oe) << ' ' << Find(s) << ' ' << Num(ss) << ' ' << Num(se);
    }
};

static ostringstream * step_log;
struct LoggedExample : public TuningExampleNbest {
    int id; string last;
    const vector<ExamplePair> & CalculateNbest(const Weights & w) {
        (*step_log) << '\t' << id << ' ' << ShowMap(w.GetCurrent());
        return TuningExampleNbest::CalculateNbest(w);
    }
};
struct OpenOnline : public TuneOnline { void SetIters(int i) { iters_ = i; } void SetShuffle(bool s) { shuffle_ = s; } };

int main() {
    boost::shared_ptr<WeightsPerceptron> W;
    boost::shared_ptr<EvalMeasure> M;
    vector<boost::shared_ptr<TuningExample> > ex;
    string line;
    GlobalVars::debug = 0;
    while(getline(cin, line)) {
        vector<string> t = Split(line, '\t');
        try {
            const string & o = t[0];
            if(o == "W") {
                W.reset(Make(t[1], Dict::ParseSparseMap(t[2])));
                W->SetLearningRate(D(t[3])); W->SetMarginScale(D(t[4])); W->SetL1Coeff(D(t[5]));
                for(size_t i = 6; i < t.size(); i++) { vector<string> r = Split(t[i], ' '); W->SetRange(r[0] == "*" ? -1 : Dict::WID(r[0]), D(r[1]), D(r[2])); }
                cout << "ok" << endl;
            }
            else if(o == "U") {
                W->Update(Dict::ParseSparseVector(t[1]), D(t[2]), D(t[3]), Dict::ParseSparseVector(t[4]), D(t[5]), D(t[6]));
                cout << "ok" << endl;
            }
            else if(o == "A") {
                vector<pair<Real,Real> > s; vector<SparseVector> f; vector<SparseVector*> p;
                for(size_t i = 1; i + 2 < t.size(); i += 3) { s.push_back(make_pair(D(t[i]), D(t[i+1]))); f.push_back(Dict::ParseSparseVector(t[i+2])); }
                for(size_t i = 0; i < f.size(); i++) p.push_back(&f[i]);
                W->AdjustNbest(s, p);
                cout << "ok" << endl;
            }
            else if(o == "R") { Weights & w = *W; cout << Num(w.GetCurrent(Dict::WID(t[1]))) << endl; }
            else if(o == "V") { Weights & w = *W; cout << Num(w * Dict::ParseSparseVector(t[1])) << endl; }
            else if(o == "F") { cout << "F " << ShowMap(W->GetFinal()) << endl; }
            else if(o == "P") {
                // seed, alpha, then score eval features: what the sampler updates
                srand(atoi(t[1].c_str()));
                Recorder * rec = new Recorder; boost::shared_ptr<Weights> holder(rec);
                WeightsOnlinePro pro(holder);
                pro.SetAlphaScale(D(t[2]));
                vector<pair<Real,Real> > s; vector<SparseVector> f;
                for(size_t i = 3; i + 2 < t.size(); i += 3) { s.push_back(make_pair(D(t[i]), D(t[i+1]))); f.push_back(Dict::ParseSparseVector(t[i+2])); }
                for(size_t i = 0; i < f.size(); i++) rec->f.push_back(&f[i]);
                pro.AdjustNbest(s, rec->f);
                cout << "P " << rec->n << rec->os.str() << endl;
            }
            else if(o == "M") { ex.clear(); M.reset(EvalMeasureLoader::CreateMeasureFromString(t[1])); cout << "ok" << endl; }
            else if(o == "N") {
                size_t id = atoi(t[1].c_str());
                while(ex.size() <= id) { LoggedExample * e = new LoggedExample; e->id = ex.size(); ex.push_back(boost::shared_ptr<TuningExample>(e)); }
                EvalStatsPtr st = M->CalculateCachedStats(Dict::ParseWordVector(t[2]), Dict::ParseWordVector(t[3]), id);
                ((TuningExampleNbest&)*ex[id]).AddHypothesis(Dict::ParseSparseVector(t[4]), st);
                cout << "ok" << endl;
            }
            else if(o == "T") {
                // seed, iterations, update, algorithm, rate, margin, start
                ostringstream log; step_log = &log;
                OpenOnline tune;
                srand(atoi(t[1].c_str())); tune.SetIters(atoi(t[2].c_str()));
                tune.SetUpdate(t[3]); tune.SetAlgorithm(t[4]); tune.SetLearningRate(D(t[5])); tune.SetMarginScale(D(t[6]));
                tune.SetExamples(ex);
                SparseMap w = Dict::ParseSparseMap(t[7]);
                tune.Init(w);
                Real s = tune.RunTuning(w);
                cout << "T " << Num(s) << '\t' << ShowMap(w) << log.str() << endl;
            }
            else cout << "??" << endl;
        } catch(const std::exception & e) { cout << "EXC\t" << e.what() << endl; }
    }
    return 0;
}
