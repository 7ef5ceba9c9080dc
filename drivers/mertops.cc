// Minimum-error-rate tuning driven by a script; every reply shows the result in full.
#include <travatar/eval-measure.h>
#include <travatar/eval-measure-loader.h>
#include <travatar/tune-mert.h>
#include <travatar/tune-greedy-mert.h>
#include <travatar/tuning-example-nbest.h>
#include <travatar/tuning-example-forest.h>
#include <travatar/hyper-graph.h>
#include <travatar/tree-io.h>
#include <travatar/global-debug.h>
#include <travatar/dict.h>
#include <boost/shared_ptr.hpp>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
using namespace travatar;
using namespace std;

static string Num(double d) { char b[64]; snprintf(b, 64, "%.17g", d); return b; }
static vector<string> Split(const string & s, char c) { vector<string> r(1); for(size_t i = 0; i < s.size(); i++) if(s[i] == c) r.push_back(""); else r.back() += s[i]; return r; }
static Real Bound(const string & s) { return s == "-inf" ? -REAL_MAX : s == "inf" ? REAL_MAX : strtod(s.c_str(), NULL); }
static string ShowMap(const SparseMap & m) {
    string r;
    for(SparseMap::const_iterator it = m.begin(); it != m.end(); ++it) r += (r.size() ? " " : "") + Dict::WSym(it->first) + "=" + Num(it->second);
    return r;
}
int main() {
    boost::shared_ptr<EvalMeasure> M;
    vector<boost::shared_ptr<TuningExample> > ex;
    string line;
    GlobalVars::debug = 0;
    while(getline(cin, line)) {
        vector<string> t = Split(line, '\t');
        try {
            const string & o = t[0];
            if(o == "M") { ex.clear(); M.reset(EvalMeasureLoader::CreateMeasureFromString(t[1])); cout << "ok" << endl; }
            else if(o == "N") {
                size_t id = atoi(t[1].c_str());
                while(ex.size() <= id) ex.push_back(boost::shared_ptr<TuningExample>(new TuningExampleNbest));
                if(t.size() > 2) ((TuningExampleNbest&)*ex[id]).AddHypothesis(Dict::ParseSparseVector(t[4]), M->CalculateCachedStats(Dict::ParseWordVector(t[2]), Dict::ParseWordVector(t[3]), id));
                cout << "ok" << endl;
            }
            else if(o == "F") {
                size_t id = atoi(t[1].c_str());
                if(ex.size() == id) ex.push_back(boost::shared_ptr<TuningExample>(new TuningExampleForest(M.get(), Dict::ParseWordVector(t[2]), id, atof(t[3].c_str()))));
                istringstream in(t[4]); JSONTreeIO io;
                ((TuningExampleForest&)*ex[id]).AddHypothesis(boost::shared_ptr<HyperGraph>(io.ReadTree(in)));
                cout << "ok" << endl;
            }
            else if(o == "L") {
                LineSearchResult r = TuneMert::LineSearch(Dict::ParseSparseMap(t[1]), Dict::ParseSparseMap(t[2]), ex, make_pair(Bound(t[3]), Bound(t[4])));
                cout << "L\t" << Num(r.pos) << '\t' << Num(r.before->ConvertToScore()) << '\t' << Num(r.after->ConvertToScore()) << '\t' << Num(r.gain) << endl;
            }
            else if(o == "RUN") {
                boost::shared_ptr<Tune> tune;
                if(t[1] == "mert") { TuneMert * m = new TuneMert; m->SetDirections(t[3]); tune.reset(m); }
                else { TuneGreedyMert * g = new TuneGreedyMert; g->SetThreads(atoi(t[3].c_str())); tune.reset(g); }
                tune->SetGainThreshold(strtod(t[2].c_str(), NULL));
                if(t[4] != "") {
                    vector<string> rs = Split(t[4], ' ');
                    for(size_t i = 0; i < rs.size(); i++) { vector<string> v = Split(rs[i], '|'); tune->SetRange(v.size() > 2 ? Dict::WID(v[2]) : -1, Bound(v[0]), Bound(v[1])); }
                }
                tune->SetExamples(ex);
                SparseMap w = Dict::ParseSparseMap(t[5]);
                tune->Init(w);
                Real s = tune->RunTuning(w);
                cout << "W\t" << Num(s) << '\t' << ShowMap(w) << endl;
            }
            else cout << "??" << endl;
        } catch(const std::exception & e) { cout << "EXC\t" << e.what() << endl; }
    }
    return 0;
}
