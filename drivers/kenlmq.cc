// Language model queries driven by a script; one line per command.
//   kenlmq TYPE FILE [key=value ...] < script
#include <lm/model.hh>
#include <lm/left.hh>
#include <lm/partial.hh>
#include <lm/enumerate_vocab.hh>
#include <lm/binary_format.hh>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
using namespace std;
using namespace lm::ngram;
using lm::WordIndex; using lm::FullScoreReturn;

struct Enum : public lm::EnumerateVocab {
    map<WordIndex, string> words; int twice;
    Enum() : twice(0) { }
    void Add(WordIndex i, const StringPiece & s) { if(words.count(i) && words[i] != string(s.data(), s.size())) twice++; words[i] = string(s.data(), s.size()); }
};

static string Num(double x) { char b[64]; snprintf(b, 64, "%.9g", x); return b; }

template<class M> struct Run {
    const M & m;
    Run(const M & mm) : m(mm) { }
    WordIndex W(const string & s) const { return m.GetVocabulary().Index(s); }
    vector<WordIndex> Ws(istringstream & is, const char * stop = NULL) const { vector<WordIndex> r; string s; while(is >> s && !(stop && s == stop)) r.push_back(W(s)); return r; }
    static string Str(const State & s) { ostringstream o; o << (int)s.length; for(int i = 0; i < s.length; i++) o << ':' << s.words[i]; return o.str(); }
    static string Str(const ChartState & s) { ostringstream o; o << (int)s.left.length << (s.left.full ? 'f' : 'p'); for(int i = 0; i < s.left.length; i++) o << ':' << s.left.pointers[i]; o << '/' << Str(s.right); return o.str(); }
    void One(ostream & o, const FullScoreReturn & r, const State & out) { o << ' ' << Num(r.prob) << ',' << (int)r.ngram_length << ',' << (r.independent_left ? 1 : 0) << ',' << Num(r.rest) << ',' << Str(out); }
    float Chart(const vector<string> & t, size_t & p, ChartState & out) {
        // at an opening bracket; "(" children one by one, "[" lets a leading non-terminal begin the rule
        bool fast = t[p++] == "[", first = true;
        RuleScore<M> sc(m, out);
        while(t[p] != ")" && t[p] != "]") {
            if(t[p] == "(" || t[p] == "[") {
                ChartState in; memset(&in, 0x5a, sizeof in); // what lies beyond the lengths is undefined
                float s = Chart(t, p, in);
                if(first && fast) sc.BeginNonTerminal(in, s); else sc.NonTerminal(in, s);
            } else {
                if(t[p] == "<s>" && first) sc.BeginSentence(); else sc.Terminal(W(t[p]));
                p++;
            }
            first = false;
        }
        p++;
        return sc.Finish();
    }
    float Frag(const vector<WordIndex> & w, ChartState & out) { RuleScore<M> sc(m, out); for(size_t i = 0; i < w.size(); i++) sc.Terminal(w[i]); return sc.Finish(); }
    void Loop(const Enum * en) {
        string line;
        while(getline(cin, line)) {
            istringstream is(line); string op; is >> op; ostringstream o;
            if(op == "S" || op == "N") {
                State a = op == "S" ? m.BeginSentenceState() : m.NullContextState(), b;
                vector<WordIndex> w = Ws(is);
                for(size_t i = 0; i < w.size(); i++) { memset(&b, 0x5a, sizeof b); One(o, m.FullScore(a, w[i], b), b); a = b; }
            } else if(op == "F" || op == "G") {
                vector<WordIndex> c = Ws(is, "|"); string s; is >> s; State b, d; memset(&b, 0x5a, sizeof b); memset(&d, 0x5a, sizeof d);
                vector<WordIndex> rev(c.rbegin(), c.rend()); rev.push_back(0); // (keeps the pointers valid)
                if(op == "F") { FullScoreReturn r = m.FullScoreForgotState(&rev[0], &rev[0] + c.size(), W(s), b); One(o, r, b); }
                else { m.GetState(&rev[0], &rev[0] + c.size(), d); FullScoreReturn r = m.FullScore(d, W(s), b); One(o, r, b); o << ' ' << Str(d); }
                // what follows
                while(is >> s) { FullScoreReturn r = m.FullScore(b, W(s), d); One(o, r, d); b = d; }
            } else if(op == "C") {
                vector<string> t; string s; while(is >> s) t.push_back(s);
                ChartState st; memset(&st, 0x5a, sizeof st); size_t p = 0; float x = Chart(t, p, st);
                o << ' ' << Num(x) << ' ' << Str(st);
                // reset and copy behave like new ones
                ChartState z(st); z.ZeroRemaining(); o << ' ' << (z == st) << (z.Compare(st) == 0) << (hash_value(z) == hash_value(st));
            } else if(op == "P") {
                // before | between | after : reveal the outer contexts word by word
                vector<WordIndex> a = Ws(is, "|"), b = Ws(is, "|"), c = Ws(is); string how;
                ChartState sa, sb, sc; float x = 0, pa = Frag(a, sa), pb = Frag(b, sb), pc = Frag(c, sc);
                Right before(sa.right); Left after(sc.left); after.full = false;
                for(unsigned i = 1; i < KENLM_MAX_ORDER; i++) {
                    if(sa.right.length >= i) { before.length = i; x += RevealBefore(m, before, i - 1, false, sb.left, sb.right); }
                    if(sc.left.length >= i) { after.length = i; x += RevealAfter(m, sb.left, sb.right, after, i - 1); }
                }
                if(sc.left.full) { after.full = true; x += RevealAfter(m, sb.left, sb.right, after, after.length); }
                if(sa.left.full) { x += RevealBefore(m, before, before.length, true, sb.left, sb.right); }
                o << ' ' << Num(pa) << ' ' << Num(pb) << ' ' << Num(pc) << ' ' << Num(x);
            } else if(op == "V") {
                string s; is >> s; WordIndex i = W(s); o << ' ' << i << ' ' << m.GetVocabulary().NotFound() << ' ' << m.GetVocabulary().BeginSentence() << ' ' << m.GetVocabulary().EndSentence();
                if(en) { map<WordIndex, string>::const_iterator it = en->words.find(i); o << ' ' << (it == en->words.end() ? "-none-" : it->second) << ' ' << en->words.size() << ' ' << en->twice << ' ' << m.GetVocabulary().Bound(); }
            } else if(op == "O") { o << ' ' << (int)m.Order() << ' ' << m.StateSize(); }
            else { printf("?%s\n", op.c_str()); fflush(stdout); continue; }
            printf("%s%s\n", op.c_str(), o.str().c_str()); fflush(stdout);
        }
    }
};

struct VirtualLoop {
    static void Go(const lm::base::Model & m) {
        string line; vector<char> a(m.StateSize()), b(m.StateSize());
        while(getline(cin, line)) {
            istringstream is(line); string op, s; is >> op; ostringstream o;
            if(op == "S") m.BeginSentenceWrite(&a[0]); else if(op == "N") m.NullContextWrite(&a[0]); else { printf("?%s\n", op.c_str()); continue; }
            while(is >> s) {
                FullScoreReturn r = m.BaseFullScore(&a[0], m.BaseVocabulary().Index(s), &b[0]);
                o << ' ' << Num(r.prob) << ',' << (int)r.ngram_length << ',' << (r.independent_left ? 1 : 0) << ',' << Num(r.rest) << ',' << Run<ProbingModel>::Str(*(State*)&b[0]); a.swap(b);
            }
            printf("%s%s\n", op.c_str(), o.str().c_str());
        }
    }
};

template<class M> void Go(const char * file, const Config & c, const Enum * en) { M m(file, c); Run<M>(m).Loop(en); }

int main(int argc, char ** argv) {
    string type = argv[1], mmapf; const char * file = argv[2];
    Config c; c.messages = NULL; c.show_progress = false; Enum en; bool use = false; ModelType if_arpa = PROBING;
    for(int i = 3; i < argc; i++) {
        string s = argv[i]; size_t e = s.find('='); string k = s.substr(0, e), v = s.substr(e + 1);
        if(k == "write") { mmapf = v; c.write_mmap = mmapf.c_str(); }
        else if(k == "method") c.write_method = v == "after" ? Config::WRITE_AFTER : Config::WRITE_MMAP;
        else if(k == "vocab") c.include_vocab = v == "1";
        else if(k == "enum") use = v == "1";
        else if(k == "mult") c.probing_multiplier = atof(v.c_str());
        else if(k == "pbits") c.prob_bits = atoi(v.c_str());
        else if(k == "bbits") c.backoff_bits = atoi(v.c_str());
        else if(k == "abits") c.pointer_bhiksha_bits = atoi(v.c_str());
        else if(k == "mem") c.building_memory = atoi(v.c_str());
        else if(k == "tmp") c.temporary_directory_prefix = v;
        else if(k == "unk") c.unknown_missing_logprob = atof(v.c_str());
        else if(k == "silent") { c.sentence_marker_missing = lm::SILENT; c.positive_log_probability = lm::SILENT; }
        else if(k == "load") c.load_method = v == "lazy" ? util::LAZY : v == "populate" ? util::POPULATE_OR_LAZY : v == "popread" ? util::POPULATE_OR_READ : v == "read" ? util::READ : util::PARALLEL_READ;
        else if(k == "ifarpa") if_arpa = (ModelType)atoi(v.c_str());
    }
    if(use) c.enumerate_vocab = &en;
    const Enum * pe = use ? &en : NULL;
    try {
        if(type == "probing") Go<ProbingModel>(file, c, pe);
        else if(type == "rest") Go<RestProbingModel>(file, c, pe);
        else if(type == "trie") Go<TrieModel>(file, c, pe);
        else if(type == "array") Go<ArrayTrieModel>(file, c, pe);
        else if(type == "quant") Go<QuantTrieModel>(file, c, pe);
        else if(type == "qarray") Go<QuantArrayTrieModel>(file, c, pe);
        else if(type == "virtual") { unique_ptr<lm::base::Model> m(LoadVirtual(file, c, if_arpa)); VirtualLoop::Go(*m); }
        else if(type == "what") { ModelType t; bool b = RecognizeBinary(file, t); printf("%d %d\n", (int)b, b ? (int)t : -1); }
    } catch(const std::exception & e) { printf("EXC %s\n", e.what()); return 3; }
    return 0;
}
