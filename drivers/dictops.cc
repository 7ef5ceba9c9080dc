// The symbol table, phrases and rules' sides driven by a script; arguments and replies are hex, so any byte can occur.
//   dictops                       commands on stdin
//   dictops threads SEED T FILE   T threads work on shuffled copies of the commands of FILE; replies are printed per thread
#include <travatar/dict.h>
#include <travatar/symbol-set.h>
#include <travatar/cfg-data.h>
#include <travatar/sentence.h>
#include <travatar/string-util.h>
#include <boost/thread.hpp>
#include <boost/thread/barrier.hpp>
#include <boost/bind.hpp>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
using namespace travatar;
using namespace std;

static string Hex(const string & s) { string r; char b[3]; for(size_t i = 0; i < s.size(); i++) { snprintf(b, 3, "%02x", (unsigned char)s[i]); r += b; } return r; }
static string Un(const string & s) { string r; for(size_t i = 0; i + 1 < s.size(); i += 2) r += (char)strtol(s.substr(i, 2).c_str(), NULL, 16); return r; }

static string Words(const Sentence & s) {
    ostringstream o;
    for(size_t i = 0; i < s.size(); i++) { if(i) o << ','; if(s[i] < 0) o << s[i]; else o << Hex(Dict::WSym(s[i])); }
    return o.str();
}
static string Cfg(const CfgDataVector & v) {
    ostringstream o;
    for(size_t i = 0; i < v.size(); i++) {
        if(i) o << '|';
        o << Words(v[i].words) << ';' << (v[i].label < 0 ? "-" : Hex(Dict::WSym(v[i].label))) << ';';
        for(size_t j = 0; j < v[i].syms.size(); j++) { if(j) o << ','; if(v[i].syms[j] < 0) o << '-'; else o << Hex(Dict::WSym(v[i].syms[j])); }
    }
    return o.str();
}
static string Do(const string & line) {
    size_t sp = line.find(' ');
    string op = line.substr(0, sp), arg = sp == string::npos ? "" : Un(line.substr(sp + 1));
    ostringstream o;
    try {
        if(op == "wid") { int id = Dict::WID(arg); o << id << ' ' << Hex(Dict::WSym(id)); }
        else if(op == "words") { Sentence s = Dict::ParseWords(arg); o << Words(s) << ' ' << Hex(Dict::PrintWords(s)); }
        else if(op == "wordvec") {
            vector<Sentence> v = Dict::ParseWordVector(arg);
            CfgDataVector d;
            for(size_t i = 0; i < v.size(); i++) d.push_back(CfgData(v[i]));
            o << Cfg(d) << ' ' << Hex(Dict::PrintWords(d));
        } else if(op == "ann") {
            CfgDataVector d = Dict::ParseAnnotatedVector(arg);
            string p = Dict::PrintAnnotatedVector(d);
            o << Cfg(d) << ' ' << Hex(p) << ' ' << (Dict::ParseAnnotatedVector(p) == d);
        } else if(op == "json") { ostringstream q; q << Dict::WSymEscaped(Dict::WID(arg)); o << Hex(q.str()); }
        else if(op == "xml") o << Hex(Dict::EncodeXML(arg));
        else if(op == "esc") o << Hex(Dict::EscapeString(arg));
        else if(op == "nt") {
            CfgData d = Dict::ParseAnnotatedWords(arg);
            vector<int> p = d.GetNontermPositions();
            for(size_t i = 0; i < p.size(); i++) o << p[i] << ',';
            o << ' ' << d.NontermsAreOrdered();
        } else if(op == "set") {
            // a symbol set of its own, written out and read back; the argument holds one symbol per line
            SymbolSet<int> s;
            vector<string> t = Tokenize(arg, '\n');
            vector<int> ids;
            for(size_t i = 0; i < t.size(); i++) ids.push_back(s.GetId(t[i], true));
            stringstream q; s.ToStream(q);
            SymbolSet<int> * r = SymbolSet<int>::FromStream(q);
            SymbolSet<int> cp(s);
            o << s.size() << ' ' << r->size() << ' ' << cp.size() << ' ' << s.GetId("\1absent") << ' ';
            for(size_t i = 0; i < t.size(); i++) o << ids[i] << ',' << r->GetId(t[i]) << ',' << cp.GetId(t[i]) << ',' << Hex(s.GetSymbol(ids[i])) << ',' << Hex(r->GetSymbol(ids[i])) << ',' << Hex(cp.GetSymbol(ids[i])) << ' ';
            delete r;
        } else o << '?';
    } catch(std::exception & e) { return "X"; }
    return o.str();
}
static vector<vector<string> > replies;
static void Work(boost::barrier * b, const vector<string> * cmds, int t, unsigned seed) {
    vector<size_t> order(cmds->size());
    for(size_t i = 0; i < order.size(); i++) order[i] = i;
    // mostly in step, so that the threads meet at the same new symbols
    for(size_t i = 1; i < order.size(); i++) { seed = seed * 1103515245u + 12345u; if((seed >> 16) % 3 == 0) swap(order[i], order[i - 1]); }
    for(size_t k = 0; k < order.size(); k++) {
        if(k % 16 == 0) b->wait();
        replies[t][order[k]] = Do((*cmds)[order[k]]);
    }
}
int main(int argc, char** argv) {
    string line;
    if(argc > 4) {
        unsigned seed = atoi(argv[2]); int T = atoi(argv[3]);
        vector<string> cmds;
        ifstream in(argv[4]);
        while(getline(in, line)) cmds.push_back(line);
        replies.assign(T, vector<string>(cmds.size()));
        boost::barrier b(T);
        boost::thread_group g;
        for(int t = 0; t < T; t++) g.create_thread(boost::bind(Work, &b, &cmds, t, seed * 31 + t));
        g.join_all();
        for(size_t i = 0; i < cmds.size(); i++) for(int t = 0; t < T; t++) cout << replies[t][i] << "\n";
        return 0;
    }
    while(getline(cin, line)) cout << Do(line) << "\n";
    return 0;
}
