// Hypergraphs driven by a script of operations; every reply is the full content of the result.
#include <travatar/hyper-graph.h>
#include <travatar/tree-io.h>
#include <travatar/trimmer-nbest.h>
#include <travatar/binarizer.h>
#include <travatar/unary-flattener.h>
#include <travatar/word-splitter-regex.h>
#include <travatar/weights.h>
#include <travatar/global-debug.h>
#include <travatar/dict.h>
#include <travatar/string-util.h>
#include <boost/scoped_ptr.hpp>
#include <boost/shared_ptr.hpp>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
using namespace travatar;
using namespace std;

static boost::shared_ptr<HyperGraph> G[8];
static string Num(double d) { char b[64]; snprintf(b, 64, "%.17g", d); return b; }
static string Esc(const string & s) {
    string r;
    for(size_t i = 0; i < s.size(); i++) { if(s[i] == '\n') r += "\\n"; else if(s[i] == '\t') r += "\\t"; else if(s[i] == '\\') r += "\\\\"; else r += s[i]; }
    return r;
}
static string Unesc(const string & s) {
    string r;
    for(size_t i = 0; i < s.size(); i++) {
        if(s[i] == '\\' && i+1 < s.size()) { ++i; r += s[i] == 'n' ? '\n' : s[i] == 't' ? '\t' : s[i]; }
        else r += s[i];
    }
    return r;
}
static string Feats(const SparseVector & v) {
    string r;
    for(SparseVector::SparseVectorImpl::const_iterator it = v.begin(); it != v.end(); ++it) r += (r.size() ? " " : "") + Dict::WSym(it->first) + "=" + Num(it->second);
    return r;
}
static string Words(const vector<WordId> & w) {
    string r;
    for(size_t i = 0; i < w.size(); i++) {
        if(i) r += " ";
        if(w[i] < 0) { ostringstream o; o << "x" << (-1 - w[i]); r += o.str(); } else r += Dict::WSym(w[i]);
    }
    return r;
}
static string Trg(const CfgDataVector & t) {
    string r;
    for(size_t i = 0; i < t.size(); i++) r += (i ? " ||| " : "") + Words(t[i].words);
    return r;
}
static CfgDataVector ParseTrg(const string & s) {
    CfgDataVector ret;
    if(s.empty()) return ret;
    string rest = s;
    while(true) {
        size_t p = rest.find(" ||| ");
        string cur = rest.substr(0, p);
        CfgData d;
        vector<string> ws = Tokenize(cur, ' ');
        for(size_t i = 0; i < ws.size(); i++) {
            if(ws[i].empty()) continue;
            if(ws[i].size() == 2 && ws[i][0] == 'x' && isdigit(ws[i][1])) d.words.push_back(-1 - (ws[i][1] - '0'));
            else d.words.push_back(Dict::WID(ws[i]));
        }
        ret.push_back(d);
        if(p == string::npos) break;
        rest = rest.substr(p + 5);
    }
    return ret;
}
static TreeIO * IO(const string & f) {
    if(f == "penn") return new PennTreeIO;
    if(f == "egret") return new EgretTreeIO;
    if(f == "json") return new JSONTreeIO;
    if(f == "rule") return new RuleTreeIO;
    if(f == "word") return new WordTreeIO;
    return new MosesXMLTreeIO;
}
static void Dump(const HyperGraph & g) {
    cout << "D " << g.NumNodes() << " " << g.NumEdges() << "\t" << Words(g.GetWords()) << "\n";
    for(int i = 0; i < g.NumNodes(); i++) {
        const HyperNode & n = *g.GetNode(i);
        cout << "N " << n.GetId() << "\t" << (n.GetSym() == -1 ? "" : Dict::WSym(n.GetSym())) << "\t" << n.GetSpan().first << " " << n.GetSpan().second << "\t";
        for(int j = 0; j < n.NumEdges(); j++) cout << (j ? " " : "") << n.GetEdge(j)->GetId();
        cout << "\t" << (n.GetViterbiScore() == -REAL_MAX ? string("-") : Num(n.GetViterbiScore())) << "\n";
    }
    for(int i = 0; i < g.NumEdges(); i++) {
        const HyperEdge & e = *g.GetEdge(i);
        cout << "E " << e.GetId() << "\t" << e.GetHead()->GetId() << "\t";
        for(int j = 0; j < e.NumTails(); j++) cout << (j ? " " : "") << e.GetTail(j)->GetId();
        cout << "\t" << Num(e.GetScore()) << "\t" << Feats(e.GetFeatures()) << "\t" << Trg(e.GetTrgData()) << "\t" << e.GetSrcStr()
             // every link must point into the graph that holds it
             << "\t" << (g.GetNode(e.GetHead()->GetId()) == e.GetHead());
        bool ok = true;
        for(int j = 0; j < e.NumTails(); j++) ok = ok && g.GetNode(e.GetTail(j)->GetId()) == e.GetTail(j);
        bool in = false;
        const vector<HyperEdge*> & he = e.GetHead()->GetEdges();
        for(size_t j = 0; j < he.size(); j++) in = in || he[j] == &e;
        cout << ok << in << "\n";
    }
}
int main() {
    string line;
    for(int i = 0; i < 8; i++) G[i].reset(new HyperGraph);
    while(getline(cin, line)) {
        vector<string> t = Tokenize(line, '\t');
        t.resize(12);
        const string & o = t[0];
        int a = atoi(t[1].c_str()), b = atoi(t[2].c_str());
        HyperGraph & g = *G[a];
        try {
            if(o == "fact") { GlobalVars::trg_factors = a; cout << "ok\n"; }
            else if(o == "new") { G[a].reset(new HyperGraph); }
            else if(o == "word") g.AddWord(Dict::WID(t[2]));
            else if(o == "node") g.AddNode(new HyperNode(t[2].empty() ? -1 : Dict::WID(t[2]), -1, make_pair(atoi(t[3].c_str()), atoi(t[4].c_str()))));
            else if(o == "edge") {
                HyperEdge * e = new HyperEdge(g.GetNode(b));
                vector<string> tl = Tokenize(t[3], ' ');
                for(size_t i = 0; i < tl.size(); i++) if(tl[i].size()) e->AddTail(g.GetNode(atoi(tl[i].c_str())));
                e->SetScore(strtod(t[4].c_str(), NULL));
                e->SetFeatures(Dict::ParseSparseVector(t[5]));
                e->SetTrgData(ParseTrg(t[6]));
                e->SetSrcStr(t[7]);
                g.AddEdge(e); e->GetHead()->AddEdge(e);
            }
            else if(o == "dump") Dump(g);
            else if(o == "read") {
                boost::scoped_ptr<TreeIO> io(IO(t[2]));
                istringstream in(Unesc(t[3]));
                HyperGraph * h = io->ReadTree(in);
                if(h) { G[a].reset(h); cout << "ok\n"; } else cout << "null\n";
            }
            else if(o == "write") {
                boost::scoped_ptr<TreeIO> io(IO(t[2]));
                ostringstream out;
                io->WriteTree(g, out);
                cout << "W " << Esc(out.str()) << "\n";
            }
            else if(o == "nbest") {
                NbestList l = g.GetNbest(b, t[3] == "1");
                cout << "B " << l.size() << "\n";
                for(size_t i = 0; i < l.size(); i++) {
                    cout << "P " << Num(l[i]->GetScore()) << "\t";
                    for(int j = 0; j < l[i]->NumEdges(); j++) cout << (j ? " " : "") << l[i]->GetEdge(j)->GetId();
                    CfgDataVector tr = l[i]->CalcTranslations();
                    cout << "\t" << Feats(l[i]->CalcFeatures()) << "\t" << Trg(tr) << "\t" << Trg(l[i]->GetTrgData()) << "\t" << Feats(l[i]->GetFeatures()) << "\n";
                }
            }
            else if(o == "reset") { g.ResetViterbiScores(); cout << "ok\n"; }
            else if(o == "vit") {
                cout << "V";
                for(int i = 0; i < g.NumNodes(); i++) {
                    try { double s = g.GetNode(i)->CalcViterbiScore(); cout << "\t" << Num(s); } catch(std::exception & e) { cout << "\tX"; }
                }
                cout << "\n";
            }
            else if(o == "score") { Weights w; SparseMap m = Dict::ParseSparseMap(t[2]); w.SetCurrent(m); g.ScoreEdges(w); cout << "ok\n"; }
            else if(o == "inout") { g.InsideOutsideNormalize(); cout << "ok\n"; }
            else if(o == "copy") { G[b].reset(new HyperGraph(g)); cout << "ok\n"; }
            else if(o == "append") cout << "A " << g.Append(*G[b]) << "\n";
            else if(o == "eq") { int q = g.CheckEqual(*G[b]); cout << "\nQ " << q << "\n"; }
            else if(o == "trim") { TrimmerNbest tr(atoi(t[3].c_str())); G[b].reset(tr.TransformGraph(g)); cout << "ok\n"; }
            else if(o == "bin") { boost::scoped_ptr<Binarizer> bi(Binarizer::CreateBinarizerFromString(t[3])); G[b].reset(bi->TransformGraph(g)); cout << "ok\n"; }
            else if(o == "flat") { UnaryFlattener f; G[b].reset(f.TransformGraph(g)); cout << "ok\n"; }
            else if(o == "split") { WordSplitterRegex s(t[3]); G[b].reset(s.TransformGraph(g)); cout << "ok\n"; }
            else cout << "? " << o << "\n";
        } catch(std::exception & e) { cout << "X " << Esc(e.what()) << "\n"; }
        cout.flush();
    }
    return 0;
}
