// Expected-score gradients, L-BFGS tuning and plain L-BFGS driven by a script.
#include <travatar/eval-measure.h>
#include <travatar/eval-measure-loader.h>
#include <travatar/gradient-xeval.h>
#include <travatar/tune-lbfgs.h>
#include <travatar/tuning-example-nbest.h>
#include <travatar/global-debug.h>
#include <travatar/dict.h>
#include <travatar/softmax.h>
#include <liblbfgs/lbfgs.hpp>
#include <boost/shared_ptr.hpp>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
using namespace travatar;
using namespace std;

static string Num(double d) { char b[64]; snprintf(b, 64, "%.17g", d); return b; }
static vector<string> Split(const string & s, char c) { vector<string> r(1); for(size_t i = 0; i < s.size(); i++) if(s[i] == c) r.push_back(""); else r.back() += s[i]; return r; }
static vector<double> Nums(const string & s) { vector<double> r; istringstream in(s); string x; while(in >> x) r.push_back(strtod(x.c_str(), NULL)); return r; }
static string ShowMap(const SparseMap & m) {
    string r;
    for(SparseMap::const_iterator it = m.begin(); it != m.end(); ++it) r += (r.size() ? " " : "") + Dict::WSym(it->first) + "=" + Num(it->second);
    return r;
}
static string ShowVec(const vector<Real> & v) { string r; for(size_t i = 0; i < v.size(); i++) r += (i ? " " : "") + Num(v[i]); return r; }

// a convex function: sum of softplus(a_i x - b_i) + half the squares of (c_j x - d_j) + l2 / 2 |x|^2
struct Convex {
    vector<vector<double> > a, c; vector<double> b, d; double l2;
    mutable int evals;
    Real operator()(size_t n, const Real * x, Real * g) const {
        ++evals;
        double f = 0;
        for(size_t i = 0; i < n; i++) { g[i] = l2 * x[i]; f += l2 * x[i] * x[i] / 2; }
        for(size_t i = 0; i < a.size(); i++) {
            double z = -b[i]; for(size_t j = 0; j < n; j++) z += a[i][j] * x[j];
            f += z > 0 ? z + log1p(exp(-z)) : log1p(exp(z));
            double s = z > 0 ? 1 / (1 + exp(-z)) : exp(z) / (1 + exp(z));
            for(size_t j = 0; j < n; j++) g[j] += s * a[i][j];
        }
        for(size_t i = 0; i < c.size(); i++) {
            double z = -d[i]; for(size_t j = 0; j < n; j++) z += c[i][j] * x[j];
            f += z * z / 2;
            for(size_t j = 0; j < n; j++) g[j] += z * c[i][j];
        }
        return f;
    }
};

// the dense interface of the gradient
struct Open : public GradientXeval {
    size_t Size() const { return dense2sparse_.size(); }
    int Dense(const string & s) { SparseIntMap::iterator it = sparse2dense_.find(Dict::WID(s)); return it == sparse2dense_.end() ? -1 : it->second; }
};

int main() {
    boost::shared_ptr<EvalMeasure> M;
    vector<boost::shared_ptr<TuningExample> > ex;
    Convex cv;
    string line;
    GlobalVars::debug = 0;
    while(getline(cin, line)) {
        vector<string> t = Split(line, '\t');
        try {
            const string & o = t[0];
            if(o == "M") { ex.clear(); M.reset(EvalMeasureLoader::CreateMeasureFromString(t[1])); cout << "ok" << endl; }
            else if(o == "N") {
                size_t id = atoi(t[1].c_str());
                while(ex.size() <= id) ex.push_back(boost::shared_ptr<TuningExample>(new TuningExampleNbest));
                EvalStatsPtr st = M->CalculateCachedStats(Dict::ParseWordVector(t[2]), Dict::ParseWordVector(t[3]), id);
                ((TuningExampleNbest&)*ex[id]).AddHypothesis(Dict::ParseSparseVector(t[4]), st);
                cout << "N\t" << ShowVec(st->GetVals()) << endl;
            }
            else if(o == "G") {
                // auto-scale, l2, entropy, mult, weights at the start, points
                Open gx;
                gx.SetAutoScale(t[1] == "1"); gx.SetL2Coefficient(strtod(t[2].c_str(), NULL)); gx.SetEntCoefficient(strtod(t[3].c_str(), NULL)); gx.SetMult(strtod(t[4].c_str(), NULL));
                gx.Init(Dict::ParseSparseMap(t[5]), ex);
                // all points share the gradient vector, as in the optimizer
                vector<Real> g(gx.Size(), 0.0);
                ostringstream os; os << "G\t" << t.size() - 6;
                for(size_t p = 6; p < t.size(); p++) {
                    SparseMap w = Dict::ParseSparseMap(t[p]), sg;
                    Real s = gx.CalcSparseGradient(w, sg);
                    vector<Real> x(gx.Size(), 0.0);
                    for(SparseMap::const_iterator it = w.begin(); it != w.end(); ++it) x[gx.Dense(Dict::WSym(it->first))] = it->second;
                    Real s2 = gx.CalcGradient(x.size(), &x[0], &g[0]);
                    bool same = s == s2 || (s != s && s2 != s2);
                    for(SparseMap::const_iterator it = sg.begin(); it != sg.end(); ++it) same = same && (g[gx.Dense(Dict::WSym(it->first))] == it->second || it->second != it->second);
                    for(size_t i = 0; i < g.size(); i++) if(g[i] != 0 && g[i] == g[i]) { bool f = false; for(SparseMap::const_iterator it = sg.begin(); it != sg.end(); ++it) f = f || gx.Dense(Dict::WSym(it->first)) == (int)i; same = same && f; }
                    os << '\t' << Num(s) << '\t' << same << '\t' << ShowMap(sg);
                }
                cout << os.str() << endl;
            }
            else if(o == "T") {
                GradientXeval * gx = new GradientXeval;
                gx->SetAutoScale(t[1] == "1"); gx->SetL2Coefficient(strtod(t[2].c_str(), NULL)); gx->SetEntCoefficient(strtod(t[3].c_str(), NULL));
                TuneLbfgs tl(gx);
                tl.SetExamples(ex);
                tl.SetIters(atoi(t[4].c_str()));
                SparseMap w0 = Dict::ParseSparseMap(t[5]);
                tl.Init(w0);
                ostringstream os; os << "T";
                for(size_t p = 5; p < t.size(); p++) {
                    SparseMap w = Dict::ParseSparseMap(t[p]);
                    Real s = tl.RunTuning(w);
                    os << '\t' << Num(s) << '\t' << ShowMap(w);
                }
                cout << os.str() << endl;
            }
            else if(o == "Q") {
                // iterations, l1, l1 start, l2, x0, then rows "s b a..." or "q d c..."
                cv = Convex(); cv.l2 = strtod(t[4].c_str(), NULL); cv.evals = 0;
                vector<double> x = Nums(t[5]);
                for(size_t i = 6; i < t.size(); i++) {
                    vector<double> v = Nums(t[i].substr(2));
                    vector<double> r(v.begin() + 1, v.end());
                    if(t[i][0] == 's') { cv.b.push_back(v[0]); cv.a.push_back(r); } else { cv.d.push_back(v[0]); cv.c.push_back(r); }
                }
                liblbfgs::LBFGS<Convex> opt(cv, atoi(t[1].c_str()), strtod(t[2].c_str(), NULL), atoi(t[3].c_str()));
                Real f = opt(x.size(), &x[0]);
                cout << "Q\t" << Num(f) << '\t' << ShowVec(x) << '\t' << cv.evals << endl;
            }
            else if(o == "S") {
                vector<Real> v = Nums(t[1]), s = Softmax(v);
                cout << "S\t" << Num(AddLogProbs(v)) << '\t' << ShowVec(s) << endl;
            }
            else cout << "??" << endl;
        } catch(const std::exception & e) { cout << "EXC\t" << e.what() << endl; }
    }
    return 0;
}
